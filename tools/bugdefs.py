"""Planted bugs: edits to /repo's sources and a demonstration for each."""

COMMON = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "smash/configuration.h"
#include "smash/decaymodes.h"
#include "smash/input_keys.h"
#include "smash/isoparticletype.h"
#include "smash/logging.h"
#include "smash/particles.h"
#include "smash/particletype.h"
#include "smash/pdgcode.h"
#include "smash/random.h"
using namespace smash;
static std::string slurp(const std::string &f) {
  std::ifstream i(std::string(getenv("DEMO_REPO")) + "/" + f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static void quiet() {
  set_default_loglevel(einhard::OFF);
  for (auto &l : logg) l.setVerbosity(einhard::OFF);
}
static void tables(bool decays = true) {
  quiet();
  ParticleType::create_type_list(slurp("input/particles.txt"));
  if (decays) {
    DecayModes::load_decaymodes(slurp("input/decaymodes.txt"));
    ParticleType::check_consistency();
  }
}
static const ParticleType &T(const char *c) {
  return ParticleType::find(PdgCode(c));
}
static int failures = 0;
#define CHECK(x)                                          \
  do {                                                    \
    if (!(x)) {                                           \
      std::printf("FAILED line %d: %s\n", __LINE__, #x);  \
      failures++;                                         \
    }                                                     \
  } while (0)
#define DONE return failures ? 1 : 0
'''

BUGS = []


def bug(id, prop, needs, breaks, edits, demo=None, py=False, sh=None,
        common=True):
    b = dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits,
             py=py)
    if demo is not None:
        b["demo"] = (COMMON if common else "") + demo
    else:
        b["sh"] = sh
    BUGS.append(b)


bug("c01-bulk-create", "C01",
    "removal of a particle that is not the last one followed by a bulk "
    "creation",
    "particles created in bulk into freed slots stay invisible to iteration",
    {"src/particles.cc": [("    data_[offset].hole_ = false;\n    --number;",
                           "    --number;")]},
    r'''
int main() {
  tables(false);
  Particles p;
  p.create(4, PdgCode("2212"));
  p.remove(*p.begin());
  p.create(2, PdgCode("211"));
  int n = 0, pi = 0;
  for (auto &d : p) { n++; pi += d.is_pion(); }
  CHECK(n == 5);
  CHECK(pi == 2);
  DONE;
}
''')

bug("c03-unformed-dilute", "C03",
    "a particle forming within the time step, unformed particles excluded "
    "from the grid, and so few particles that one cell is used",
    "a particle that can interact in the step is missing from the grid",
    {"src/grid.cc": [(
        "                   [&](const ParticleData &p) {\n"
        "                     return p.xsec_scaling_factor(timestep_duration) "
        "> 0.0;",
        "                   [](const ParticleData &p) {\n"
        "                     return p.xsec_scaling_factor() > 0.0;")]},
    r'''
#include "smash/grid.h"
int main() {
  tables(false);
  Particles p;
  for (int i = 0; i < 3; i++) {
    ParticleData d(T("2212"));
    d.set_4momentum(0.938, 0.1, 0, 0);
    d.set_4position(FourVector(1., 0.3 * i, 0, 0));
    d.set_cross_section_scaling_factor(1.);
    d.set_formation_time(0.5);
    if (i == 1) {
      d.set_formation_time(1.5);
      d.set_cross_section_scaling_factor(0.);
    }
    p.insert(d);
  }
  Grid<GridOptions::Normal> g(
      p, 2.5, 1.,
      CellNumberLimitation::ParticleNumber, false, CellSizeStrategy::Optimal);
  size_t n = 0;
  g.iterate_cells([&](const ParticleList &l) { n += l.size(); },
                  [&](const ParticleList &, const ParticleList &) {});
  CHECK(n == 3);
  DONE;
}
''')

bug("c04-wall-tie", "C04",
    "a particle moving parallel to a coordinate plane in a periodic box",
    "the particle is put on a wall of the wrong axis when it crosses",
    {"src/wallcrossingaction.cc": [
        ("    for (int i = 0; i < 3; i++) {\n      double t = t_max + 1.;",
         "    double t = t_max + 1.;\n    for (int i = 0; i < 3; i++) {"),
        ("if (t < time_until_crossing) {", "if (t <= time_until_crossing) {")]},
    r'''
#include "smash/wallcrossingaction.h"
int main() {
  tables(false);
  WallCrossActionsFinder f(10.);
  ParticleData d(T("2212"), 0);
  d.set_4momentum(0.938, 0.5, 0, 0);
  d.set_4position(FourVector(0., 9.9, 3, 4));
  auto a = f.find_actions_in_cell({d}, 2., 0., {});
  CHECK(a.size() == 1);
  a[0]->generate_final_state();
  FourVector x = a[0]->outgoing_particles()[0].position();
  CHECK(std::abs(x[1]) < 1e-9);
  CHECK(std::abs(x[2] - 3) < 1e-9);
  CHECK(std::abs(x[3] - 4) < 1e-9);
  DONE;
}
''')

bug("c41-begin-formation", "C41",
    "an unstable particle that is still in its formation phase and has a "
    "gradual formation",
    "the decay happens before the particle has formed",
    {"src/decayactionsfinder.cc": [
        ("decay_time += p.formation_time() - p.position().x0();",
         "decay_time += p.begin_formation_time() - p.position().x0();")]},
    r'''
#include "smash/decayactionsfinder.h"
#include "smash/decayaction.h"
int main() {
  tables();
  auto cfg = Configuration("{}", Configuration::InitializeFromYAMLString);
  random::set_seed(7);
  DecayActionsFinder f(1., true, true, SpinInteractionType::Off);
  int early = 0;
  for (int i = 0; i < 500; i++) {
    ParticleData d(T("2224"), 0);
    d.set_4momentum(1.232, 0.1, 0, 0);
    d.set_4position(FourVector(1., 0, 0, 0));
    d.set_slow_formation_times(1., 4.);
    d.set_cross_section_scaling_factor(0.3);
    ParticleData q(T("2212"), 1);
    d.set_history(1, 1, ProcessType::Elastic, 0., {q, q});
    for (auto &a : f.find_actions_in_cell({d}, 2.5, 1., {}))
      early += a->time_of_execution() < 4.;
  }
  CHECK(early == 0);
  DONE;
}
''')

bug("c42-scaling-time", "C42",
    "a pair whose second particle forms before the collision happens",
    "the cross section of the second particle is scaled as at the start of "
    "the step, and the collision is missed",
    {"src/scatteractionsfinder.cc": [(
        "  xs *= data_b.xsec_scaling_factor(time_until_collision);\n\n"
        "  if (finder_parameters_.coll_crit == "
        "CollisionCriterion::Stochastic) {\n"
        "    const double v_rel",
        "  xs *= data_b.xsec_scaling_factor();\n\n"
        "  if (finder_parameters_.coll_crit == "
        "CollisionCriterion::Stochastic) {\n"
        "    const double v_rel")]},
    r'''
#include "smash/scatteractionsfinder.h"
#include "params.h"
int main() {
  tables();
  auto cfg = demo_finder_config(30.);
  auto par = demo_params();
  ScatterActionsFinder f(cfg, par);
  cfg.clear();
  ParticleData a(T("2212"), 0), b(T("2212"), 1);
  a.set_4momentum(0.938, 0.8, 0, 0);
  b.set_4momentum(0.938, -0.8, 0, 0);
  a.set_4position(FourVector(0, -1, 0, 0));
  b.set_4position(FourVector(0, 1, 0, 0));
  a.set_cross_section_scaling_factor(1.);
  a.set_formation_time(0.);
  b.set_cross_section_scaling_factor(0.);
  b.set_formation_time(0.5);
  CHECK(f.find_actions_in_cell({a, b}, 4., 1., {}).size() == 1);
  CHECK(f.find_actions_in_cell({b, a}, 4., 1., {}).size() == 1);
  DONE;
}
''', py=True)

bug("c07-sigmabar", "C07",
    "a negative pion meeting an anti-Sigma0",
    "the reaction creates a K+ instead of a K0 and violates charge "
    "conservation",
    {"src/crosssections.cc": [(
        "                                                  type_p_bar, "
        "type_K_z) *\n                   kminusn_piminussigma0(sqrt_s_);\n"
        "          },\n          sqrt_s_, type_p_bar, type_K_z);\n"
        "      break;\n    }\n    case pack(pdg::Sigma_m, pdg::pi_z): {",
        "                                                  type_p_bar, "
        "type_K_z) *\n                   kminusn_piminussigma0(sqrt_s_);\n"
        "          },\n          sqrt_s_, type_p_bar, "
        "ParticleType::find(pdg::K_p));\n"
        "      break;\n    }\n    case pack(pdg::Sigma_m, pdg::pi_z): {")]},
    r'''
#include "smash/scatteraction.h"
#include "smash/scatteractionsfinder.h"
#include "params.h"
int main() {
  tables();
  ParticleData a(T("-3212"), 0), b(T("-211"), 1);
  a.set_4momentum(1.189, 0.4, 0, 0);
  b.set_4momentum(0.138, -0.4, 0, 0);
  auto cfg = demo_finder_config(-1.);
  auto par = demo_params(true);
  ScatterActionsFinderParameters fp(cfg, par);
  cfg.clear();
  ScatterAction act(a, b, 0., false, 1.);
  act.add_all_scatterings(fp);
  CHECK(!act.collision_channels().empty());
  for (auto &c : act.collision_channels()) {
    int q = 0;
    for (auto &t : c->particle_types()) q += t->charge();
    CHECK(q == -1);
  }
  DONE;
}
''', py=True)

bug("c17-check-then-create", "C17",
    "a competing process that creates the lock file between the check and "
    "the creation",
    "two processes hold the same lock",
    {"src/filelock.cc": [(
        "  const int fd =\n      open(path_.native().c_str(), O_EXCL | O_CREAT, "
        "S_IRUSR | S_IWUSR);\n",
        "  if (std::filesystem::exists(path_)) {\n    return false;\n  }\n"
        "  const int fd =\n      open(path_.native().c_str(), O_CREAT, "
        "S_IRUSR | S_IWUSR);\n")]},
    r'''
#include <fcntl.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "smash/filelock.h"
static bool armed = false;
// The competitor is scheduled directly before the creation of the lock file.
extern "C" int open(const char *p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  const int mode = (flags & O_CREAT) ? va_arg(a, int) : 0;
  va_end(a);
  if (armed && strstr(p, "demo.lock")) {
    armed = false;
    const long other = syscall(SYS_openat, AT_FDCWD, p,
                               O_CREAT | O_EXCL | O_WRONLY, 0600);
    if (other >= 0) close(other);
  }
  return syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
int main() {
  {
    FileLock l("demo.lock");
    armed = true;
    CHECK(!l.acquire());
  }
  // the competitor's lock is still there
  CHECK(access("demo.lock", F_OK) == 0);
  unlink("demo.lock");
  {
    FileLock l("demo.lock");
    CHECK(l.acquire());
  }
  CHECK(access("demo.lock", F_OK) != 0);
  DONE;
}
''')

bug("c18-decays-not-in-key", "C18",
    "two runs sharing a cache directory with the same particles but different "
    "decay modes",
    "the second run uses integrals computed with other decay modes",
    {"src/library.cc": [(
        "  hash_context.update(particles_string);\n"
        "  hash_context.update(decaymodes_string);\n",
        "  hash_context.update(particles_string);\n")]},
    r'''
#include "smash/library.h"
#include "smash/sha256.h"
#include <sys/wait.h>
#include <unistd.h>
static int run(const char *dec) {
  Configuration c(R"(Version: "1.0")", Configuration::InitializeFromYAMLString);
  c.set_value(InputKeys::particles, std::string(
      "π 0.138 7.7e-9 - 111 211\nσ 0.8 0.4 + 9000221\n"
      "N 0.938 0 + 2112 2212\nN(1440) 1.44 0.35 + 12112 12212\n"));
  c.set_value(InputKeys::decaymodes, std::string(dec));
  const auto h = initialize_particles_decays_and_return_hash(c, "1");
  c.clear();
  FILE *f = std::fopen("hash", "a");
  std::fprintf(f, "%s\n", sha256::hash_to_string(h).c_str());
  std::fclose(f);
  return 0;
}
int main() {
  quiet();
  for (const char *d : {"σ\n1. 0 π π\n\nN(1440)\n1. 1 N π\n",
                        "σ\n1. 0 π π\n\nN(1440)\n0.6 1 N π\n0.4 0 N σ\n"})
    if (fork() == 0)
      _exit(run(d));
    else
      wait(nullptr);
  std::ifstream i("hash");
  std::string a, b;
  CHECK(i >> a >> b);
  CHECK(a != b);
  DONE;
}
''')

bug("c12-xsecfac-initial", "C12",
    "a particle with a gradual formation that has formed partly or completely",
    "the cross section factor at the start of the formation is written "
    "instead of the one at the time of the output",
    {"src/include/smash/outputformatter.h": [(
        "as_double(in.xsec_scaling_factor());",
        "as_double(in.initial_xsec_scaling_factor());")]},
    r'''
#include "smash/outputformatter.h"
int main() {
  tables(false);
  OutputFormatter<ToASCII> f({"ID", "xsecfac"});
  ParticleData d(T("2212"), 7);
  d.set_4momentum(0.938, 0.1, 0, 0);
  d.set_4position(FourVector(2., 0, 0, 0));
  d.set_slow_formation_times(0., 1.);
  d.set_cross_section_scaling_factor(0.25);
  auto text = [&] {
    const auto s = f.single_particle_data(d);
    return std::string(s.begin(), s.end());
  };
  CHECK(text() == "7 1\n");
  d.set_4position(FourVector(-1., 0, 0, 0));
  CHECK(text() == "7 0.25\n");
  DONE;
}
''')

bug("c13-copy-not-rename", "C13",
    "the process dies while the finished file gets its final name",
    "a file with the final name can be incomplete",
    {"src/file.cc": [(
        "    std::filesystem::rename(filename_unfinished_, filename_);",
        "    std::filesystem::copy_file(\n"
        "        filename_unfinished_, filename_,\n"
        "        std::filesystem::copy_options::overwrite_existing);\n"
        "    std::filesystem::remove(filename_unfinished_);")]},
    r'''
#include "smash/file.h"
#include <sys/inotify.h>
#include <fcntl.h>
#include <unistd.h>
// The final name must appear at once: it is watched how it comes into being.
int main() {
  const int fd = inotify_init1(IN_NONBLOCK);
  CHECK(fd >= 0);
  CHECK(inotify_add_watch(fd, ".", IN_CREATE | IN_MODIFY | IN_MOVED_TO) >= 0);
  {
    RenamingFilePtr f("out.dat", "w");
    for (int i = 0; i < 100; i++) std::fprintf(f.get(), "line %d\n", i);
  }
  alignas(inotify_event) char buf[65536];
  const ssize_t n = read(fd, buf, sizeof buf);
  int moved = 0, other = 0;
  for (ssize_t i = 0; i < n;) {
    auto *e = reinterpret_cast<inotify_event *>(buf + i);
    if (e->len && !strcmp(e->name, "out.dat"))
      (e->mask & IN_MOVED_TO ? moved : other)++;
    i += sizeof(inotify_event) + e->len;
  }
  CHECK(moved == 1);
  CHECK(other == 0);
  CHECK(access("out.dat.unfinished", F_OK) != 0);
  DONE;
}
''')

bug("c14-net-shift", "C14",
    "an event whose particle times scatter such that their differences to the "
    "first particle cancel",
    "the particles are not propagated back to a common time",
    {"src/listmodus.cc": [(
        "      formation_time_difference += std::abs(t - "
        "reference_formation_time);",
        "      formation_time_difference += t - reference_formation_time;"),
        (" (formation_time_difference > really_small)",
         "\n      (std::abs(formation_time_difference) > really_small)")]},
    r'''
#include "params.h"
#include <unistd.h>
#include "smash/listmodus.h"
int main() {
  tables(false);
  {
    std::ofstream o("list");
    o << "#!OSCAR2013 particle_lists t x y z mass p0 px py pz pdg ID charge\n"
         "# Units\n# SMASH\n# event 0 out 3\n"
         "1 0 0 0 0.938 1.3711 1 0 0 2212 0 1\n"
         "0.5 1 0 0 0.938 1.3711 1 0 0 2212 1 1\n"
         "1.5 2 0 0 0.938 1.3711 1 0 0 2212 2 1\n"
         "# event 0 end 0 impact 0\n";
  }
  char dir[4096];
  CHECK(getcwd(dir, sizeof dir));
  ListModus m(Configuration((std::string("Modi: {List: {File_Directory: \"") +
                             dir + "\", Filename: list}}").c_str(),
                            Configuration::InitializeFromYAMLString),
              demo_params());
  Particles ps;
  CHECK(m.initial_conditions(&ps, demo_params()) == 0.5);
  for (auto &p : ps) CHECK(std::fabs(p.position().x0() - 0.5) < 1e-12);
  DONE;
}
''', py=True)

bug("c15-merge-empty-section", "C15",
    "merging a configuration that has an empty section",
    "the existing content of the section is lost",
    {"src/configuration.cc": [("  if (b.IsMap()) {\n    for (auto n0 : b) {",
                               "  if (b.IsMap() && b.size() > 0) {\n"
                               "    for (auto n0 : b) {")]},
    r"""
int main() {
  quiet();
  Configuration c("Modi: {Box: {Length: 2.0}}",
                  Configuration::InitializeFromYAMLString);
  c.merge_yaml("Modi: {Box: {}}");
  CHECK(c.has_value(InputKeys::modi_box_length));
  c.clear();
  Configuration d("Modi: {Box: {Length: 2.0}}",
                  Configuration::InitializeFromYAMLString);
  d.merge_yaml("Modi: {Box: {Temperature: 0.2}}");
  CHECK(d.has_value(InputKeys::modi_box_length));
  CHECK(d.has_value(InputKeys::modi_box_temperature));
  d.clear();
  DONE;
}
""")

bug("c16-deuteron-reaction", "C16",
    "a selection of two-to-two reactions with NDeuteron_to_Ndprime, but "
    "without PiDeuteron_to_pidprime",
    "another reaction is switched on than the one selected",
    {"src/include/smash/configuration.h": [(
        "          s.set(IncludedReactions::NDeuteron_to_Ndprime);",
        "          s.set(IncludedReactions::PiDeuteron_to_pidprime);")]},
    r"""
int main() {
  quiet();
  Configuration c("Collision_Term: {Included_2to2: [Elastic, "
                  "NDeuteron_to_Ndprime]}",
                  Configuration::InitializeFromYAMLString);
  const ReactionsBitSet r = c.take(InputKeys::collTerm_includedTwoToTwo);
  CHECK(r.count() == 2);
  CHECK(r[IncludedReactions::NDeuteron_to_Ndprime]);
  CHECK(r[IncludedReactions::Elastic]);
  c.clear();
  DONE;
}
""")

bug("c08-spin-nine-half", "C08",
    "a baryon resonance of spin 9/2 (and no other)",
    "its PDG code is written as that of another particle",
    {"src/include/smash/pdgcode.h": [("    if (n_J_2 > 9) {\n      n_J_1",
                                      "    if (n_J_2 > 10) {\n      n_J_1")]},
    r"""
int main() {
  quiet();
  for (int j : {2, 4, 6, 8}) {
    const PdgCode p = PdgCode::from_decimal(2210 + j);
    CHECK(p.get_decimal() == 2210 + j);
  }
  const PdgCode h = PdgCode::from_decimal(10002219);
  CHECK(h.spin() == 9);
  CHECK(h.get_decimal() == 10002219);
  const PdgCode k = PdgCode::from_decimal(-30002219);
  CHECK(k.spin() == 11);
  CHECK(k.get_decimal() == -30002219);
  DONE;
}
""")

bug("c11-search-to-output", "C11",
    "intermediate outputs within a time step and an interaction of a newly "
    "produced particle after the next output but within the step",
    "interactions are missed (here: particles leave the box)",
    {"src/include/smash/experiment.h": [(
        "    const double end_time_timestep = parameters_.labclock->"
        "next_time();\n    // New actions are always search until the end of "
        "the current timestep\n    const double time_left = end_time_timestep "
        "- act->time_of_execution();",
        "    // New actions are searched until the end of this propagation\n"
        "    const double time_left =\n        end_time_propagation - "
        "act->time_of_execution();")]},
    r"""
#include "smash/scatteractionsfinder.h"
#include "smash/experiment.h"
#include "smash/spheremodus.h"
int main() {
  quiet();
  Configuration c(
      "Version: 1.8\n"
      "General:\n  Modus: Sphere\n  Time_Step_Mode: None\n"
      "  End_Time: 60.0\n  Randomseed: 5\n  Nevents: 1\n"
      "Output:\n  Output_Interval: 1.0\n"
      "Collision_Term: {No_Collisions: true, Strings: false}\n"
      "Modi:\n  Sphere:\n    Radius: 3.0\n    Temperature: 0.01\n"
      "    Start_Time: 0.0\n    Init_Multiplicities: {2124: 40}\n",
      Configuration::InitializeFromYAMLString);
  ParticleType::create_type_list(
      "N 0.938 0 + 2112 2212\nπ 0.138 7.7e-9 - 111 211\n"
      "Δ 1.232 0.117 + 1114 2114 2214 2224\nN(1520) 1.515 0.110 - 1214 2124\n");
  DecayModes::load_decaymodes("Δ\n1. 1 N π\n\nN(1520)\n1. 0 Δ π\n\n");
  Experiment<SphereModus> e(c, ".");
  quiet();
  e.initialize_new_event();
  e.run_time_evolution(60.0);
  Particles *ps = e.first_ensemble();
  CHECK(ps->size() > 60);
  int unstable = 0;
  for (auto &p : *ps) unstable += p.pdgcode().is_Delta();
  std::printf("%d unstable left\n", unstable);
  CHECK(unstable <= 1);
  c.clear();
  DONE;
}
""", py=True)

bug("c21-below-edge", "C21",
    "a position less than one cell below the lower z edge of a lattice",
    "the value of the lowest cell is returned for a position outside",
    {"src/include/smash/lattice.h": [(
        "        numeric_cast<int>(std::floor((r.x3() - origin_[2]) / "
        "cell_sizes_[2]));\n    if (out_of_bounds(ix, iy, iz)) {\n      value",
        "        numeric_cast<int>(std::trunc((r.x3() - origin_[2]) / "
        "cell_sizes_[2]));\n    if (out_of_bounds(ix, iy, iz)) {\n      value"
    )]},
    r"""
#include "smash/lattice.h"
int main() {
  quiet();
  RectangularLattice<double> a({3., 3., 3.}, {3, 3, 3}, {0., 0., 0.}, false,
                               LatticeUpdate::EveryTimestep);
  for (auto &x : a) x = 7.;
  double v = 1.;
  CHECK(a.value_at(ThreeVector(0.5, 0.5, 0.5), v));
  CHECK(v == 7.);
  for (int i = 0; i < 3; i++)
    for (double x : {-0.5, -1.5, 3.5}) {
      ThreeVector r(1.5, 1.5, 1.5);
      r[i] = x;
      v = 1.;
      CHECK(!a.value_at(r, v));
      CHECK(v == 0.);
    }
  DONE;
}
""")

bug("c23-small-weights", "C23",
    "a process whose weight is tiny but not zero",
    "it can never be chosen",
    {"src/include/smash/action.h": [(
        "    for (auto &proc : pv) {\n      if (proc->weight() > 0) {",
        "    for (auto &proc : pv) {\n      if (proc->weight() > "
        "really_small) {")]},
    r"""
#include "smash/decayaction.h"
#include "smash/decaytype.h"
int main() {
  tables();
  TwoBodyDecayStable d1({&T("2212"), &T("111")}, 1), d2({&T("2112"), &T("211")},
                                                        1);
  ParticleData d(T("12212"), 1);
  d.set_4momentum(1.5, 0, 0, 0);
  DecayAction a(d, 1.);
  DecayBranchList l;
  l.push_back(std::make_unique<DecayBranch>(d1, 5e-7));
  l.push_back(std::make_unique<DecayBranch>(d2, 3e-7));
  l.push_back(std::make_unique<DecayBranch>(d2, 0.));
  a.add_decays(std::move(l));
  CHECK(std::abs(a.get_total_weight() - 8e-7) < 1e-12);
  DONE;
}
""", py=True)

bug("c28-dt-charge", "C28",
    "the time derivative of the current of particles which do not count as "
    "exactly one (e.g. charge 2 or isospin)",
    "the derivative is not the one of the current",
    {"src/density.cc": [(
        "tmp.threevec()[k - 1] / dens_factor;",
        "tmp.threevec()[k - 1];")]},
    r"""
#include "params.h"
#include "smash/density.h"
int main() {
  tables(false);
  const auto ep = demo_params();
  const DensityParameters par(ep);
  for (const char *c : {"2212", "2224"}) {
    ParticleData d(T(c), 0);
    d.set_4momentum(1.2, 0.4, -0.2, 0.7);
    d.set_4position(FourVector(0., 0.2, 0.1, -0.3));
    const double h = 1e-4;
    const ThreeVector r(0.1, 0.3, 0.2);
    auto at = [&](double t) {
      ParticleData x = d;
      x.set_4position(d.position() +
                      FourVector(t, d.velocity() * t));
      return current_eckart(r, ParticleList{x}, par, DensityType::Charge, true,
                            true);
    };
    const FourVector num =
        (std::get<1>(at(h)) - std::get<1>(at(-h))) * (0.5 / h);
    const FourVector got = std::get<4>(at(0.));
    CHECK(num.x0() != 0.);
    for (int i = 0; i < 4; i++)
      CHECK(std::abs(num[i] - got[i]) < 1e-4 * std::abs(num.x0()));
  }
  DONE;
}
""", py=True)

bug("c46-np-backward", "C46",
    "elastic neutron-proton scattering above plab = 0.8 GeV",
    "neutrons and protons scatter backwards too often",
    {"src/scatteraction.cc": [(
        "a = (plab < 0.8) ? 1. : 0.64 / (plab * plab);",
        "a = (plab < 0.8) ? 1. : 0.8 / plab;")]},
    r"""
#include "params.h"
#include "smash/scatteraction.h"
int main() {
  tables();
  const double m = T("2212").mass(), p = 1.4;
  int back = 0, n = 20000;
  random::set_seed(42);
  for (int i = 0; i < n; i++) {
    ParticleData a(T("2212"), 0), b(T("2112"), 1);
    a.set_4momentum(m, 0, 0, p), b.set_4momentum(m, 0, 0, -p);
    ScatterAction s(a, b, 0.);
    s.add_collision(std::make_unique<CollisionBranch>(
        a.type(), b.type(), 10., ProcessType::Elastic));
    s.generate_final_state();
    for (auto &o : s.outgoing_particles())
      if (o.type() == a.type() && o.momentum().x3() < 0) back++;
  }
  const double e = std::sqrt(m * m + p * p);
  const double plab = 2 * e * p / m;
  const double a = 0.64 / (plab * plab);
  CHECK(std::abs(double(back) / n - a / (1 + a)) < 0.01);
  DONE;
}
""", py=True)

bug("c27-impact-range", "C27",
    "quadratic sampling of the impact parameter with a minimum above zero",
    "impact parameters are not distributed proportionally to b",
    {"src/collidermodus.cc": [(
        "      impact_ = std::sqrt(imp_min_ * imp_min_ +\n"
        "                          random::canonical() *\n"
        "                              (imp_max_ * imp_max_ - imp_min_ * imp_min_));",
        "      impact_ = imp_min_ +\n"
        "                std::sqrt(random::canonical()) * (imp_max_ - imp_min_);")]},
    r"""
#include "params.h"
#include "smash/scatteractionsfinder.h"
#include "smash/experiment.h"
#include "smash/collidermodus.h"
int main() {
  tables();
  const auto ep = demo_params();
  Configuration c("Modi: {Collider: {Projectile: {Particles: {2212: 1}}, "
                  "Target: {Particles: {2212: 1}}, Sqrtsnn: 5., "
                  "Impact: {Sample: quadratic, Range: [4., 6.]}}}",
                  Configuration::InitializeFromYAMLString);
  ColliderModus m(c.extract_complete_sub_configuration({"Modi"}), ep);
  random::set_seed(42);
  int low = 0;
  const int n = 20000;
  for (int i = 0; i < n; i++) {
    Particles p;
    m.sample_impact();
    m.initial_conditions(&p, ep);
    if (m.impact_parameter() < 5.) low++;
  }
  CHECK(std::abs(double(low) / n - 9. / 20) < 0.02);
  DONE;
}
""", py=True)

bug("c19-scattered-beam", "C19",
    "frozen Fermi motion and a nucleon that has scattered before it crosses the "
    "hypersurface",
    "scattered nucleons are taken out where the beam would cross",
    {"src/hypersurfacecrossingfinder.cc": [(
        "        (static_cast<uint64_t>(p.id()) <                  // particle from\n"
        "         static_cast<uint64_t>(beam_momentum.size())) &&  // initial nucleus\n"
        "        (p.get_history().collisions_per_particle == 0);",
        "        (static_cast<uint64_t>(p.id()) <  // particle from\n"
        "         static_cast<uint64_t>(beam_momentum.size()));")]},
    r"""
#include "smash/fluidizationaction.h"
#include "smash/hypersurfacecrossingfinder.h"
int main() {
  tables(false);
  FluidizationAction::remove_particle_ = true;
  HyperSurfaceCrossActionsFinder f(1., 0., 0.);
  ParticleData d(T("2212"), 0);
  d.set_4momentum(d.pole_mass(), 0.3, 0.1, 0.2);
  d.set_4position(FourVector(0.4, 1., 0., 0.1));
  d.set_formation_time(0.);
  d.set_history(1, 1, ProcessType::Elastic, 0.3, ParticleList{d});
  const auto a = f.find_actions_in_cell({d}, 3., 0., {FourVector(2, 0, 0, 1.7)});
  CHECK(a.size() == 1);
  const double v = d.velocity().x3(), n = 0.1 - v * 0.4;
  const double t =
      (n * v + std::sqrt(n * n + (1 - v * v))) / (1 - v * v);
  if (a.size() == 1) CHECK(std::abs(a[0]->time_of_execution() - t) < 1e-6);
  DONE;
}
""")

bug("c20-elapsed-fraction", "C20",
    "a formation time fraction below one and a hadron found in a step later "
    "than its creation",
    "hadrons become core before the fraction of their formation time is over",
    {"src/dynamicfluidfinder.cc": [(
        "        formation_time_fraction_ * (p.formation_time() - t_creation);",
        "        formation_time_fraction_ * (p.formation_time() - t0);")]},
    r"""
#include "smash/action.h"
#include "smash/dynamicfluidfinder.h"
int main() {
  tables(false);
  RectangularLattice<EnergyMomentumTensor> lat(
      {8, 8, 8}, {4, 4, 4}, {-4, -4, -4}, false, LatticeUpdate::EveryTimestep);
  for (auto &x : lat) x = EnergyMomentumTensor({9, 0, 0, 0, 3, 0, 0, 3, 0, 3});
  std::map<int32_t, double> bg;
  InitialConditionParameters ip{};
  ip.type = FluidizationType::Dynamic;
  ip.fluidizable_processes = FluidizableProcessesBitSet{}.set();
  ip.energy_density_threshold = 0.5;
  ip.min_time = 0, ip.max_time = 100, ip.num_fluid_cells = 4;
  ip.formation_time_fraction = 0.5, ip.smearing_kernel_at_0 = 0.06;
  ip.delay_initial_elastic = false;
  DynamicFluidizationFinder f(lat, bg, ip);
  for (double t0 : {1., 1.5, 2.}) {
    ParticleData p(T("211"), 3);
    p.set_4momentum(p.pole_mass(), 0.1, 0, 0.2);
    p.set_4position(FourVector(t0, 0.5, -1.5, 2.5));
    p.set_slow_formation_times(1., 5.);
    p.set_cross_section_scaling_factor(0.);
    HistoryData h;
    h.collisions_per_particle = 2;
    h.process_type = ProcessType::StringSoftNonDiffractive;
    p.set_history(std::move(h));
    const auto a = f.find_actions_in_cell({p}, 10., 1., {});
    CHECK(a.size() == 1);
    if (a.size() == 1) CHECK(std::abs(a[0]->time_of_execution() - 3.) < 1e-9);
  }
  DONE;
}
""")
