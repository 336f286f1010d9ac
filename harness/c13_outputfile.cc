// C13: a particle or thermodynamic output file appears under its final name
// only if it is complete - for every crash point and every failing system call
// of the writing process.
#include "mc_ptrace.h"
#include "outputs.h"

using namespace smash;

namespace {
struct Case {
  std::string name;
  std::vector<mc::OutSpec> specs;
  int particles, events;
  bool throws;     // an exception ends the simulation
  bool earlier;    // a finished file of an earlier run is there
};

ParticleList make_particles(int n, int variant) {
  ParticleList l;
  const char *codes[] = {"211", "2212", "-2112", "111", "321"};
  for (int i = 0; i < n; i++)
    l.push_back(mc::particle(mc::pdg(codes[i % 5]), 0.1 + 0.2 * (i % 5),
                             0.1 * i + variant, -0.3, 1. / (i + 3), 2.,
                             0.5 * (i % 7), i % 3, -1. + variant, i));
  return l;
}

int simulation(const Case &c, const std::string &dir) {
  ExperimentParameters par = mc::params();
  const DensityParameters dens(par);
  std::unique_ptr<Clock> clock =
      std::make_unique<UniformClock>(0., 1., 10.);
  auto write = [&](OutputInterface &o, const mc::OutSpec &s) {
    for (int ev = 0; ev < c.events; ev++) {
      std::vector<Particles> ens(1);
      for (auto &p : make_particles(c.particles, ev))
        ens[0].insert(p);
      const EventLabel label{ev, 0};
      const EventInfo info = mc::event_info();
      if (s.format == "Thermodynamics") {
        o.at_eventstart(ens, ev);
        o.at_intermediate_time(ens, clock, dens);
        o.at_eventend(ens, ev);
        continue;
      }
      o.at_eventstart(ens[0], label, info);
      const auto l = make_particles(2, ev + 3);
      if (s.content == "Initial_Conditions") {
        ParticleData p = l[0];
        p.set_4position(FourVector(3., 0., 0., 1.));
        p.set_history(1, 1, ProcessType::Elastic, 1., l);
        mc::FixedAction a({p}, {p}, 3., ProcessType::Fluidization, 1., 1.);
        for (int i = 0; i < 1 + c.particles / 4; i++)
          o.at_interaction(a, 0.);
      } else {
        mc::FixedAction a(l, l, 3., ProcessType::Elastic, 20., 10.);
        for (int i = 0; i < 1 + c.particles / 4; i++)
          o.at_interaction(a, 0.1);
        o.at_intermediate_time(ens[0], clock, dens, label, info);
      }
      if (c.throws && ev == c.events - 1)
        throw std::runtime_error("the simulation fails");
      o.at_eventend(ens[0], label, info);
    }
  };
  try {
    std::vector<std::unique_ptr<OutputInterface>> outs;
    for (auto &s : c.specs)
      outs.push_back(mc::make_output(s, dir));
    for (size_t i = 0; i < outs.size(); i++)
      write(*outs[i], c.specs[i]);
  } catch (const std::exception &) {
    return 1;
  }
  return 0;
}

const char *kOld = "# result of an earlier run\n";

std::string fresh(const Case &c) {
  const std::string d = mc::fresh_dir("out");
  if (c.earlier)
    for (auto &s : c.specs)
      std::ofstream(d + "/" + mc::file_name(s)) << kOld;
  return d;
}

/// How did it end?
std::string outcome(const mc::Traced &t) {
  return t.code() >= 0 ? mc::fmt("exit %d", t.code()) : "killed";
}

std::vector<std::string> reference(const Case &c) {
  Case k = c;
  k.throws = false;
  const std::string dir = fresh(k);
  mc::Traced t(dir, [&] { return simulation(k, dir); });
  while (t.running())
    t.step();
  if (t.code() != 0)
    mc::viol(c.name, "the undisturbed run ends with " + outcome(t));
  std::vector<std::string> r;
  for (auto &s : c.specs) {
    const std::string f = dir + "/" + mc::file_name(s);
    if (!std::filesystem::exists(f))
      mc::viol(c.name, "no file " + mc::file_name(s) +
                           " after a complete run");
    r.push_back(mc::slurp(f));
  }
  size_t n = 0;
  for (auto &e : std::filesystem::directory_iterator(dir)) {
    (void)e;
    n++;
  }
  if (n != c.specs.size())
    mc::viol(c.name, "further files are left after a complete run");
  return r;
}

/// A final name is missing, unchanged or complete.
void inspect(const Case &c, const std::string &dir, const std::string &key,
             const std::vector<std::string> &ref) {
  std::string canon = c.name;
  for (size_t i = 0; i < c.specs.size(); i++) {
    const std::string f = dir + "/" + mc::file_name(c.specs[i]);
    const bool there = std::filesystem::exists(f);
    const std::string is = there ? mc::slurp(f) : "";
    canon += mc::fmt("|%d %zu", there, is.size());
    if (!there) {
      if (c.earlier)
        mc::viol(key, "the file of the earlier run is gone: " +
                          mc::file_name(c.specs[i]));
      continue;
    }
    if (c.earlier && is == kOld)
      continue;
    if (c.throws || is != ref[i])
      mc::viol(key, mc::fmt("%s has its final name but %zu of %zu bytes%s",
                            mc::file_name(c.specs[i]).c_str(), is.size(),
                            ref[i].size(),
                            c.throws ? " (the simulation failed)" : ""));
  }
  for (auto &e : std::filesystem::directory_iterator(dir)) {
    canon += mc::fmt("|%s %zu", e.path().filename().c_str(),
                     size_t(std::filesystem::file_size(e.path())));
  }
  mc::state(canon);
}

void run(const Case &c) {
  mc::cur(c.name);
  const auto ref = reference(c);
  if (c.throws) {
    const std::string dir = fresh(c);
    mc::Traced t(dir, [&] { return simulation(c, dir); });
    while (t.running())
      t.step();
    inspect(c, dir, c.name, ref);
    mc::trace();
  }
  // crash points
  for (size_t k = 0;; k++) {
    bool end = false;
    for (int part = 0; part < 5; part++) {
      const std::string dir = fresh(c);
      mc::Traced t(dir, [&] { return simulation(c, dir); });
      for (size_t i = 0; i < k && t.running(); i++)
        t.step();
      if (!t.running()) {
        end = true;
        break;
      }
      const auto ev = t.pending();
      if (part > 0 && ev.len == 0)
        break;
      const uint64_t n = part == 0   ? 0
                         : part == 1 ? 1
                         : part == 2 ? ev.len / 2
                         : part == 3 ? ev.len - 1
                                     : ev.len;
      const std::string key =
          mc::fmt("%s: death at call %zu (%s) after %llu bytes",
                  c.name.c_str(), k,
                  (ev.name + ev.path.substr(dir.size())).c_str(),
                  (unsigned long long)n);
      mc::cur(key);
      t.crash(n);
      mc::transition();
      mc::trace();
      mc::extra("crash points");
      inspect(c, dir, key, ref);
      if (k % 9 == 0)
        mc::sample(key);
    }
    if (end)
      break;
  }
  // one failing call, and a disk that stays full
  for (int err : {ENOSPC, EIO, EACCES})
    for (bool stays : {false, true})
      for (size_t k = 0;; k++) {
        const std::string dir = fresh(c);
        mc::Traced t(dir, [&] { return simulation(c, dir); });
        for (size_t i = 0; i < k && t.running(); i++)
          t.step();
        if (!t.running())
          break;
        const auto ev = t.pending();
        const bool write = ev.name == "write", open = ev.name == "open",
                   ren = ev.name == "rename", close = ev.name == "close";
        if (err == EACCES ? !(open || ren) : !(write || open || close || ren))
          continue;
        if (stays && err != ENOSPC)
          continue;
        const std::string key = mc::fmt(
            "%s: call %zu (%s) fails with %s%s", c.name.c_str(), k,
            (ev.name + ev.path.substr(dir.size())).c_str(), strerror(err),
            stays ? ", so do all later writes" : "");
        mc::cur(key);
        t.step_error(err);
        while (t.running()) {
          if (stays && t.pending().name == "write")
            t.step_error(err);
          else
            t.step();
        }
        mc::transition();
        mc::trace();
        mc::extra("failing calls");
        inspect(c, dir, key, ref);
        if (open && t.code() != 1)
          mc::viol(key, "an output file that cannot be opened ends the run "
                        "with " + outcome(t) + " instead of an error");
        if (mc::too_many())
          return;
      }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_shipped_tables();
  std::vector<mc::OutSpec> specs;
  for (const char *f : {"Oscar2013", "Oscar1999", "ASCII", "Oscar2013_bin",
                        "Binary"})
    for (const char *co : {"Particles", "Collisions", "Dileptons", "Photons",
                           "Initial_Conditions"})
      for (bool ext : {false, true}) {
        mc::OutSpec s;
        s.format = f;
        s.content = co;
        if (ext && (s.format == "Oscar1999" || s.format == "ASCII" ||
                    s.format == "Binary"))
          continue;
        s.extended = ext;
        s.startend = s.content == "Collisions";
        s.only_final = OutputOnlyFinal::No;
        if (s.format == "ASCII" || s.format == "Binary")
          s.quantities = {"t", "p0", "pdg", "charge"};
        specs.push_back(s);
      }
  for (const char *f : {"vHLLE", "Thermodynamics"}) {
    mc::OutSpec s;
    s.format = f;
    s.content = s.format == "vHLLE" ? "Initial_Conditions" : "Thermodynamics";
    specs.push_back(s);
  }
  std::vector<Case> cases;
  for (auto &s : specs)
    for (int n : {2, mc::bound(60, 400)})
      for (int mode = 0; mode < 3; mode++) {
        Case c;
        c.specs = {s};
        c.particles = n;
        c.events = mc::bound(2, 3);
        c.throws = mode == 1;
        c.earlier = mode == 2;
        c.name = s.str() + mc::fmt(" %d particles", n) +
                 (c.throws ? " exception" : "") +
                 (c.earlier ? " earlier file" : "");
        if (c.throws && s.format == "Thermodynamics")
          continue;
        cases.push_back(c);
      }
  // two outputs in one run
  Case two;
  two.specs = {specs[0], specs.back()};
  two.particles = 30;
  two.events = 1;
  two.throws = two.earlier = false;
  two.name = "two outputs";
  cases.push_back(two);
  for (size_t i = 0; i < cases.size(); i++)
    if (mc::mine(i))
      run(cases[i]);
  return mc::finish();
}
