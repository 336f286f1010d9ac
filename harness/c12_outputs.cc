// C12: the particle output files contain exactly what was handed to them, in
// the documented form: parsed back with independent readers.
#include "outputs.h"

using namespace smash;

namespace {
struct Rec {  // what a particle line must contain
  std::map<std::string, double> v;
};

Rec record(const ParticleData &p) {
  Rec r;
  auto &v = r.v;
  const FourVector x = p.position(), k = p.momentum();
  const HistoryData h = p.get_history();
  v["t"] = x.x0();
  v["x"] = x.x1();
  v["y"] = x.x2();
  v["z"] = x.x3();
  v["mass"] = p.effective_mass();
  v["p0"] = k.x0();
  v["px"] = k.x1();
  v["py"] = k.x2();
  v["pz"] = k.x3();
  v["pdg"] = p.pdgcode().get_decimal();
  v["ID"] = v["id"] = p.id();
  v["charge"] = p.type().charge();
  v["ncoll"] = h.collisions_per_particle;
  v["form_time"] = p.formation_time();
  v["xsecfac"] = p.xsec_scaling_factor();
  v["proc_id_origin"] = h.id_process;
  v["proc_type_origin"] = static_cast<int>(h.process_type);
  v["time_last_coll"] = h.time_last_collision;
  v["pdg_mother1"] = h.p1.get_decimal();
  v["pdg_mother2"] = h.p2.get_decimal();
  v["baryon_number"] = p.type().baryon_number();
  v["strangeness"] = p.type().strangeness();
  v["spin0"] = p.spin_vector()[0];
  v["spinx"] = p.spin_vector()[1];
  v["spiny"] = p.spin_vector()[2];
  v["spinz"] = p.spin_vector()[3];
  v["0"] = 0;
  // derived quantities from their definitions
  const double t = x.x0(), z = x.x3();
  v["tau"] = std::sqrt(t * t - z * z);
  v["eta"] = v["eta_s"] = 0.5 * std::log((t + z) / (t - z));
  v["mt"] = std::sqrt(k.x0() * k.x0() - k.x3() * k.x3());
  v["Rap"] = v["y_rap"] = 0.5 * std::log((k.x0() + k.x3()) / (k.x0() - k.x3()));
  v["perturbative_weight"] = p.perturbative_weight();
  return r;
}
const std::set<std::string> kInt = {
    "pdg", "ID", "id", "charge", "ncoll", "proc_id_origin", "proc_type_origin",
    "pdg_mother1", "pdg_mother2", "baryon_number", "strangeness", "0"};
const std::set<std::string> kDerived = {"tau", "eta", "eta_s", "mt", "Rap",
                                        "y_rap"};
const std::map<std::string, std::string> kUnit = {
    {"t", "fm"}, {"x", "fm"}, {"y", "fm"}, {"z", "fm"}, {"mass", "GeV"},
    {"p0", "GeV"}, {"px", "GeV"}, {"py", "GeV"}, {"pz", "GeV"},
    {"pdg", "none"}, {"ID", "none"}, {"id", "none"}, {"charge", "e"},
    {"ncoll", "none"}, {"form_time", "fm"}, {"xsecfac", "none"},
    {"proc_id_origin", "none"}, {"proc_type_origin", "none"},
    {"time_last_coll", "fm"}, {"pdg_mother1", "none"},
    {"pdg_mother2", "none"}, {"baryon_number", "none"},
    {"strangeness", "none"}, {"0", "0"}, {"tau", "fm"}, {"eta", "none"},
    {"eta_s", "none"}, {"mt", "GeV"}, {"Rap", "none"}, {"y_rap", "none"},
    {"spin0", "none"}, {"spinx", "none"}, {"spiny", "none"},
    {"spinz", "none"}, {"perturbative_weight", "none"}};
const std::vector<std::string> kOscar = {"t", "x", "y", "z", "mass", "p0",
                                         "px", "py", "pz", "pdg", "ID",
                                         "charge"};
const std::vector<std::string> kExt = {
    "t", "x", "y", "z", "mass", "p0", "px", "py", "pz", "pdg", "ID", "charge",
    "ncoll", "form_time", "xsecfac", "proc_id_origin", "proc_type_origin",
    "time_last_coll", "pdg_mother1", "pdg_mother2", "baryon_number",
    "strangeness"};
const std::vector<std::string> k1999 = {"id", "pdg", "0", "px", "py", "pz",
                                        "p0", "mass", "x", "y", "z", "t"};
const std::vector<std::string> kVHLLE = {"tau", "x", "y", "eta", "mt", "px",
                                         "py", "Rap", "pdg", "charge",
                                         "baryon_number", "strangeness"};

bool same_number(double want, double got, const std::string &q, bool binary) {
  if (std::isnan(want))
    return std::isnan(got);
  if (want == got)
    return true;
  if (kInt.count(q))
    return false;
  double rel = 0;
  if (!binary) {
    const bool precise = q == "p0" || q == "px" || q == "py" || q == "pz";
    rel = precise ? 5.1e-9 : 5.1e-6;
  }
  if (kDerived.count(q)) {
    if (std::isinf(want) || std::isnan(want))
      return true;
    return std::abs(want - got) <=
           (rel + 1e-11) * std::abs(want) + (binary ? 1e-9 : 1e-6);
  }
  if (std::isinf(want))
    return want == got;
  // subnormal numbers have fewer digits
  return std::abs(want - got) <= rel * std::abs(want) + (rel > 0 ? 5e-324 : 0);
}

// ---- what is handed over ---------------------------------------------------
struct Block {
  char kind;  // 's' start, 't' time, 'i' interaction, 'e' end list
  std::vector<Rec> parts;
  size_t nin = 0, nout = 0;
  double rho = 0, w = 0, pw = 0;
  int type = 0;
};
struct Ev {
  int number, ensemble;
  double b;
  bool empty;
  std::vector<Block> blocks;
};

std::vector<Rec> records(const Particles &p) {
  std::vector<Rec> r;
  for (auto &d : p)
    r.push_back(record(d));
  return r;
}

std::string key, file;
void bad(const std::string &m) { mc::viol(key, file + ": " + m); }

// ---- text readers ----------------------------------------------------------
std::vector<std::string> words(const std::string &s) {
  std::istringstream i(s);
  std::vector<std::string> w;
  std::string x;
  while (i >> x)
    w.push_back(x);
  return w;
}
std::string join(const std::vector<std::string> &v) {
  std::string s;
  for (auto &x : v)
    s += (s.empty() ? "" : " ") + x;
  return s;
}

struct Text {
  std::vector<std::string> lines;
  size_t at = 0;
  std::string next() {
    return at < lines.size() ? lines[at++] : "<end of file>";
  }
};

bool number(const std::string &w, double &x) {
  const char *c = w.c_str();
  char *e = nullptr;
  x = strtod(c, &e);
  return e == c + w.size() && !w.empty();
}

void particle_line(Text &t, const Rec &r, const std::vector<std::string> &q) {
  const std::string l = t.next();
  const auto w = words(l);
  if (w.size() != q.size()) {
    bad(mc::fmt("a particle line has %zu instead of %zu entries: '%s'",
                w.size(), q.size(), l.c_str()));
    return;
  }
  for (size_t i = 0; i < q.size(); i++) {
    double x = 0;
    if (!number(w[i], x) || !same_number(r.v.at(q[i]), x, q[i], false))
      bad(mc::fmt("%s is written as '%s' instead of %.12g", q[i].c_str(),
                  w[i].c_str(), r.v.at(q[i])));
  }
}
void expect_line(Text &t, const std::string &want) {
  const std::string l = t.next();
  if (l != want)
    bad("expected the line '" + want + "', found '" + l + "'");
}
void expect_words(Text &t, const std::string &want) {
  const std::string l = t.next();
  if (join(words(l)) != want)
    bad("expected the line '" + want + "', found '" + l + "'");
}

/// "# interaction in 2 out 1 rho .. weight .. partial .. type n" / OSCAR1999
void interaction_line(Text &t, const Block &b, bool modern) {
  const std::string l = t.next();
  const auto w = words(l);
  const std::vector<int> idx = modern ? std::vector<int>{3, 5, 7, 9, 11, 13}
                                      : std::vector<int>{0, 1, 2, 3, 4, 5};
  const size_t n = modern ? 14 : 6;
  if (w.size() != n || (modern && (w[0] != "#" || w[1] != "interaction" ||
                                   w[2] != "in" || w[4] != "out" ||
                                   w[6] != "rho" || w[8] != "weight" ||
                                   w[10] != "partial" || w[12] != "type"))) {
    bad("no interaction line: '" + l + "'");
    return;
  }
  const double want[6] = {double(b.nin), double(b.nout), b.rho, b.w, b.pw,
                          double(b.type)};
  for (int i = 0; i < 6; i++) {
    double x;
    const double tol =
        (i == 0 || i == 1 || i == 5)
            ? 0
            : 0.51e-7 + 1e-6 * (i == 3 && modern ? std::abs(want[i]) : 0);
    if (!number(w[idx[i]], x) || std::abs(x - want[i]) > tol)
      bad(mc::fmt("entry %d of the interaction line is '%s' instead of %.10g",
                  i, w[idx[i]].c_str(), want[i]));
  }
}

void check_text(const mc::OutSpec &s, const std::string &path,
                const std::vector<Ev> &evs) {
  Text t;
  {
    std::ifstream i(path);
    if (!i) {
      bad("the file does not exist");
      return;
    }
    std::string l;
    while (std::getline(i, l))
      t.lines.push_back(l);
  }
  const std::string all = mc::slurp(path);
  if (all.empty() || all.back() != '\n')
    bad("the last line is not terminated");
  const bool old = s.format == "Oscar1999", vh = s.format == "vHLLE";
  const auto q = s.format == "ASCII" ? s.quantities
                 : old               ? k1999
                 : vh                ? kVHLLE
                 : s.extended        ? kExt
                                     : kOscar;
  std::string units;
  for (auto &x : q)
    units += (units.empty() ? "" : " ") + kUnit.at(x);
  const std::string name = s.content == "Particles"    ? "particle_lists"
                           : s.content == "Collisions" ? "full_event_history"
                           : s.content == "Initial_Conditions" ? "SMASH_IC"
                                                               : s.content;
  if (vh) {
    t.next();
    expect_words(t, "# " + join(q));
    expect_words(t, "# " + units);
  } else if (old) {
    expect_line(t, "# OSC1999A");
    expect_line(t, "# " + (name == "particle_lists" ? "final_id_p_x" : name));
    t.next();
    expect_line(t, "# Block format:");
    t.next();
    expect_words(t, "# " + join(k1999));
    t.next();
    expect_words(t, "#");
  } else {
    const std::string f = s.format == "ASCII" ? "ASCII"
                          : s.extended        ? "OSCAR2013Extended"
                                              : "OSCAR2013";
    expect_words(t, "#!" + f + " " + name + " " + join(q));
    expect_words(t, "# Units: " + units);
    t.next();
  }
  const bool ic = s.content == "Initial_Conditions";
  const bool particles = s.content == "Particles";
  for (auto &e : evs) {
    const std::string id = mc::fmt("%d ensemble %d", e.number, e.ensemble);
    for (auto &b : e.blocks) {
      if (ic) {
        if (b.kind == 's') {
          if (old)
            expect_words(t, mc::fmt("0 0 %d %d", e.number, e.ensemble));
          else
            expect_words(t, "# event " + id + " start");
        } else if (b.kind == 'i') {
          for (size_t i = 0; i < b.nin; i++)
            particle_line(t, b.parts[i], q);
        }
        continue;
      }
      const bool lists = particles || (s.content == "Collisions" && s.startend);
      if (b.kind == 'i') {
        if (particles)
          continue;
        interaction_line(t, b, !old);
      } else if (b.kind == 's') {
        if (!lists || (particles && s.only_final != OutputOnlyFinal::No))
          continue;
        expect_words(t, old ? mc::fmt("0 %zu %d %d", b.parts.size(), e.number,
                                      e.ensemble)
                            : "# event " + id +
                                  mc::fmt(" in %zu", b.parts.size()));
      } else {
        if (!lists)
          continue;
        if (b.kind == 't' &&
            (!particles || s.only_final != OutputOnlyFinal::No))
          continue;
        if (b.kind == 'e' && particles && e.empty &&
            s.only_final == OutputOnlyFinal::IfNotEmpty)
          continue;
        expect_words(t, old ? mc::fmt("%zu 0 %d %d", b.parts.size(), e.number,
                                      e.ensemble)
                            : "# event " + id +
                                  mc::fmt(" out %zu", b.parts.size()));
      }
      for (auto &r : b.parts)
        particle_line(t, r, q);
    }
    if (old)
      expect_words(t, mc::fmt("0 0 %d %d %.3f", e.number, e.ensemble, e.b));
    else if (ic)
      expect_words(t, "# event " + id + " end");
    else
      expect_words(t, "# event " + id + mc::fmt(" end 0 impact %.3f "
                                                "scattering_projectile_target "
                                                "%s",
                                                e.b, e.empty ? "no" : "yes"));
  }
  if (t.at != t.lines.size())
    bad("there is more in the file than was handed over: '" +
        t.lines[t.at] + "'");
}

// ---- binary reader ---------------------------------------------------------
struct Bin {
  std::string d;
  size_t at = 0;
  bool over = false;
  template <typename T>
  T get() {
    T x{};
    if (at + sizeof(T) > d.size()) {
      over = true;
      return x;
    }
    memcpy(&x, d.data() + at, sizeof(T));
    at += sizeof(T);
    return x;
  }
};
void binary_particles(Bin &b, const std::vector<Rec> &parts, size_t from,
                      size_t n, const std::vector<std::string> &q) {
  for (size_t i = from; i < from + n; i++)
    for (auto &x : q) {
      const double v = kInt.count(x) ? double(b.get<int32_t>())
                                     : b.get<double>();
      if (b.over || !same_number(parts[i].v.at(x), v, x, true))
        bad(mc::fmt("%s is written as %.17g instead of %.17g", x.c_str(), v,
                    parts[i].v.at(x)));
    }
}
template <typename T>
void expect_bin(Bin &b, T want, const char *what) {
  const T got = b.get<T>();
  if (b.over || got != want)
    bad(mc::fmt("%s is %.10g instead of %.10g at byte %zu", what, double(got),
                double(want), b.at));
}

void check_binary(const mc::OutSpec &s, const std::string &path,
                  const std::vector<Ev> &evs) {
  Bin b;
  b.d = mc::slurp(path);
  auto q = s.extended ? kExt : kOscar;
  if (s.format == "Binary" && !s.quantities.empty())
    q = s.quantities;
  if (b.d.compare(0, 4, "SMSH") != 0)
    bad("no magic number");
  b.at = 4;
  expect_bin<uint16_t>(b, 10, "the format version");
  expect_bin<uint16_t>(b, q == kOscar ? 0 : q == kExt ? 1 : 2,
                       "the format variant");
  const uint32_t len = b.get<uint32_t>();
  b.at += len;
  const bool ic = s.content == "Initial_Conditions";
  const bool particles = s.content == "Particles";
  for (auto &e : evs) {
    for (auto &k : e.blocks) {
      if (b.over || mc::too_many())
        return;
      if (ic) {
        if (k.kind == 'i' &&
            (k.type == int(ProcessType::Fluidization) ||
             k.type == int(ProcessType::FluidizationNoRemoval))) {
          expect_bin<char>(b, 'p', "the block type");
          expect_bin<uint32_t>(b, k.nin, "the number of particles");
          binary_particles(b, k.parts, 0, k.nin, q);
        }
        continue;
      }
      if (k.kind == 'i') {
        if (particles)
          continue;
        expect_bin<char>(b, 'i', "the block type");
        expect_bin<uint32_t>(b, k.nin, "the number of incoming particles");
        expect_bin<uint32_t>(b, k.nout, "the number of outgoing particles");
        expect_bin<double>(b, k.rho, "the density");
        expect_bin<double>(b, k.w, "the total weight");
        expect_bin<double>(b, k.pw, "the partial weight");
        expect_bin<uint32_t>(b, k.type, "the process type");
        binary_particles(b, k.parts, 0, k.parts.size(), q);
        continue;
      }
      bool there;
      if (particles)
        there = k.kind == 'e' ? !(e.empty && s.only_final ==
                                                 OutputOnlyFinal::IfNotEmpty)
                              : s.only_final == OutputOnlyFinal::No;
      else
        there = s.startend && k.kind != 't';
      if (!there)
        continue;
      expect_bin<char>(b, 'p', "the block type");
      expect_bin<int32_t>(b, e.number, "the event number");
      expect_bin<int32_t>(b, e.ensemble, "the ensemble number");
      expect_bin<uint32_t>(b, k.parts.size(), "the number of particles");
      binary_particles(b, k.parts, 0, k.parts.size(), q);
    }
    expect_bin<char>(b, 'f', "the block type");
    expect_bin<int32_t>(b, e.number, "the event number");
    expect_bin<int32_t>(b, e.ensemble, "the ensemble number");
    expect_bin<double>(b, e.b, "the impact parameter");
    expect_bin<char>(b, e.empty, "the empty-event flag");
  }
  if (b.at != b.d.size())
    bad(mc::fmt("%zu bytes too many", b.d.size() - b.at));
}

// ---- driving the outputs ---------------------------------------------------
struct Op {
  char kind;  // s t i e
  int n, m;   // particles (incoming, outgoing)
  int type;
  double rho = 0.16, w = 31.5, pw = 2.25;
};
struct EvPlan {
  int number, ensemble;
  double b;
  bool empty;
  std::vector<Op> ops;
};

/// Particle i of a fixed sequence of ordinary particles.
ParticleData ordinary(int i) {
  const char *codes[] = {"2212", "-211", "3122", "1000010020", "-321", "22"};
  ParticleData p = mc::particle(mc::pdg(codes[i % 6]), 0.1 + 0.3 * (i % 4),
                                0.25 * i - 1, 0.125 * (i % 5), -0.5 + i % 3,
                                10.5 + i, -0.75 * i, 3.25, 0.5 * (i % 9) - 2,
                                i);
  const auto parent = mc::particle(mc::pdg("2224"), 1.3, 0, 0, 0.1 * i);
  const auto parent2 = mc::particle(mc::pdg("211"), 0.138, 0, 0, 0);
  if (i % 3)
    p.set_history(i % 7, i, i % 2 ? ProcessType::TwoToOne : ProcessType::Decay,
                  9. - 0.5 * i, {i % 2 ? parent2 : parent, parent});
  p.set_formation_time(0.5 * i);
  if (i % 4 == 1)
    p.set_cross_section_scaling_factor(0.25);
  return p;
}

void run(const mc::OutSpec &s, const std::vector<EvPlan> &plan,
         const std::function<ParticleData(int)> &make) {
  const std::string dir = mc::G().scratch + "/o";
  std::filesystem::remove_all(dir);
  std::filesystem::create_directories(dir);
  file = mc::file_name(s);
  std::vector<Ev> evs;
  std::unique_ptr<Clock> clock = std::make_unique<UniformClock>(0., 1., 10.);
  static ExperimentParameters par = mc::params();
  static const DensityParameters dens(par);
  int i = 0;
  {
    auto o = mc::make_output(s, dir);
    for (auto &e : plan) {
      Ev ev{e.number, e.ensemble, e.b, e.empty, {}};
      const EventLabel label{e.number, e.ensemble};
      const EventInfo info = mc::event_info(e.b, e.empty);
      for (auto &op : e.ops) {
        Block b;
        b.kind = op.kind;
        mc::transition();
        if (op.kind == 'i') {
          ParticleList in, out;
          for (int k = 0; k < op.n; k++)
            in.push_back(make(i++));
          for (int k = 0; k < op.m; k++)
            out.push_back(make(i++));
          mc::FixedAction a(in, out, 3., static_cast<ProcessType>(op.type),
                            op.w, op.pw);
          for (auto &p : in)
            b.parts.push_back(record(p));
          for (auto &p : out)
            b.parts.push_back(record(p));
          b.nin = op.n;
          b.nout = op.m;
          b.rho = op.rho;
          b.w = op.w;
          b.pw = op.pw;
          b.type = op.type;
          o->at_interaction(a, op.rho);
        } else {
          Particles p;
          for (int k = 0; k < op.n; k++)
            p.insert(make(i++));
          b.parts = records(p);
          if (op.kind == 's')
            o->at_eventstart(p, label, info);
          else if (op.kind == 't')
            o->at_intermediate_time(p, clock, dens, label, info);
          else
            o->at_eventend(p, label, info);
        }
        ev.blocks.push_back(b);
      }
      evs.push_back(ev);
    }
  }
  const std::string path = dir + "/" + file;
  if (s.format == "Binary" || s.format == "Oscar2013_bin")
    check_binary(s, path, evs);
  else
    check_text(s, path, evs);
  mc::trace();
}

std::vector<mc::OutSpec> specs(bool all_options) {
  std::vector<mc::OutSpec> v;
  for (const char *f : {"Oscar2013", "Oscar1999", "ASCII", "Oscar2013_bin",
                        "Binary"})
    for (const char *co : {"Particles", "Collisions", "Dileptons", "Photons",
                           "Initial_Conditions"})
      for (bool ext : {false, true})
        for (int opt = 0; opt < 3; opt++) {
          mc::OutSpec s;
          s.format = f;
          s.content = co;
          s.extended = ext;
          if (ext && (s.format == "Oscar1999" || s.format == "ASCII"))
            continue;
          if (opt > 0 && !all_options)
            continue;
          if (s.content == "Particles")
            s.only_final = opt == 0   ? OutputOnlyFinal::No
                           : opt == 1 ? OutputOnlyFinal::Yes
                                      : OutputOnlyFinal::IfNotEmpty;
          else if (s.content == "Collisions" && opt < 2)
            s.startend = opt == 0;
          else if (opt > 0)
            continue;
          if (s.format == "ASCII")
            s.quantities = {"ID", "t", "p0", "pdg"};
          v.push_back(s);
          if (s.format == "Binary" && !ext) {
            s.quantities = {"pdg", "eta_s", "ncoll", "spinx", "px"};
            v.push_back(s);
          }
        }
  return v;
}

/// All sequences of output calls of two events.
void structure(uint64_t &job) {
  for (auto &s : specs(true)) {
    if (!mc::mine(job++))
      continue;
    mc::explore([&](mc::Chooser &c) {
      std::vector<EvPlan> plan;
      std::string h;
      const bool ic = s.content == "Initial_Conditions";
      const int depth = mc::bound(2, 3);
      for (int e = 0; e < 2; e++) {
        EvPlan p;
        p.number = e == 0 ? 0 : 7;
        p.ensemble = ic ? 0 : e;
        p.b = e == 0 ? 0. : 12.5;
        static const int sizes[] = {0, 1, 3};
        const int n0 = sizes[e == 0 ? c(3) : 1 + c(2)];
        p.ops.push_back({'s', n0, 0, 0});
        h += mc::fmt(" start%d", n0);
        const int n = c(e == 0 ? depth + 1 : depth);
        for (int k = 0; k < n; k++) {
          const int w = c(ic ? 3 : 4);
          if (ic)
            p.ops.push_back({'i', 1, w == 2 ? 1 : 0,
                             int(w == 1 ? ProcessType::FluidizationNoRemoval
                                        : ProcessType::Fluidization)});
          else if (w == 0)
            p.ops.push_back({'t', sizes[1 + (k + e) % 2], 0, 0});
          else
            p.ops.push_back({'i', w == 3 ? 1 : 2, w == 1 ? 2 : w == 2 ? 1 : 3,
                             int(w == 1   ? ProcessType::Elastic
                                 : w == 2 ? ProcessType::TwoToOne
                                          : ProcessType::Decay)});
          h += mc::fmt(" %c%d", p.ops.back().kind, w);
        }
        p.empty = c(2);
        const int n1 = sizes[e == 0 ? c(2) * 2 : 2];
        p.ops.push_back({'e', n1, 0, 0});
        h += mc::fmt(" end%d%s;", n1, p.empty ? "empty" : "");
        plan.push_back(p);
      }
      key = s.str() + ":" + h;
      mc::cur(key);
      mc::state(key);
      run(s, plan, ordinary);
      if (mc::G().traces % 1500 == 7)
        mc::sample(key);
    });
  }
}

/// Every quantity with every kind of value.
void values(uint64_t &job) {
  const std::vector<double> dbl = {
      0., -0., 1., -1., 0.1, -1. / 3, 123456.7, 999999.5, -1234567.8, 1e-5,
      1.234565e-5, -9.99999951e-7, 1e15, -1e22, 1.23456789e100,
      -1.23456789e100, -1.23456789e-100, 2.2250738585072014e-308, -5e-324,
      -1.7976931348623157e308, 9.9999999949, 9.9999999951, 1e-10};
  std::vector<mc::OutSpec> list;
  for (auto &s : specs(false)) {
    if (s.content != "Particles" && s.content != "Collisions")
      continue;
    mc::OutSpec all = s;
    if (s.format == "ASCII" || s.format == "Binary") {
      all.quantities = kExt;
      for (const char *q : {"spin0", "spinx", "spiny", "spinz",
                            "perturbative_weight", "0"})
        all.quantities.push_back(q);
    }
    list.push_back(all);
  }
  for (auto &s : list) {
    if (!mc::mine(job++))
      continue;
    key = s.str() + ": value grid of the real quantities";
    mc::cur(key);
    auto one = [&](const std::string &what,
                   const std::function<void(ParticleData &)> &f) {
      key = s.str() + ": " + what;
      mc::cur(key);
      mc::state(key);
      const std::vector<Op> ops =
          s.content == "Particles"
              ? std::vector<Op>{{'s', 2, 0, 0}, {'e', 1, 0, 0}}
              : std::vector<Op>{{'s', 1, 0, 0}, {'i', 1, 1, 5}, {'e', 1, 0, 0}};
      run(s, {{1, 0, 3., false, ops}}, [&](int i) {
        ParticleData p = ordinary(i % 5);
        if (i == 1)
          f(p);
        return p;
      });
    };
    for (double v : dbl) {
      const std::string vs = mc::fmt("=%.17g", v);
      for (int c = 0; c < 4; c++) {
        one(mc::fmt("position component %d", c) + vs, [&](ParticleData &p) {
          FourVector x = p.position();
          x[c] = v;
          p.set_4position(x);
        });
        one(mc::fmt("momentum component %d", c) + vs, [&](ParticleData &p) {
          // squared for the mass
          const double w = std::abs(v) > 1e150 ? v * 1e-160 : v;
          FourVector x(c == 0 ? std::abs(w) : std::hypot(2 * w, 1.), 0., 0.,
                       0.);
          if (c > 0)
            x[c] = w;
          p.set_4momentum(x);
        });
        one(mc::fmt("spin component %d", c) + vs, [&](ParticleData &p) {
          p.set_spin_vector_component(c, v);
        });
      }
      one("formation time" + vs,
          [&](ParticleData &p) { p.set_formation_time(v); });
      one("scaling factor" + vs,
          [&](ParticleData &p) { p.set_cross_section_scaling_factor(v); });
      one("last collision" + vs, [&](ParticleData &p) {
        HistoryData h = p.get_history();
        h.time_last_collision = v;
        p.set_history(std::move(h));
      });
      one("weight" + vs,
          [&](ParticleData &p) { p.set_perturbative_weight(v); });
    }
    for (int n : {0, 1, 9, 123456, 2147483647}) {
      const std::string ns = mc::fmt("=%d", n);
      one("collisions" + ns, [&](ParticleData &p) {
        HistoryData h = p.get_history();
        h.collisions_per_particle = n;
        p.set_history(std::move(h));
      });
      one("process id" + ns, [&](ParticleData &p) {
        HistoryData h = p.get_history();
        h.id_process = n;
        p.set_history(std::move(h));
      });
      if (s.content == "Collisions")
        one("identifier" + ns, [&](ParticleData &p) { p.set_id(n); });
    }
    for (int t = 0; t < 100; t++)
      if (is_valid_process_type(t))
        one(mc::fmt("process type=%d", t), [&](ParticleData &p) {
          HistoryData h = p.get_history();
          h.process_type = static_cast<ProcessType>(t);
          p.set_history(std::move(h));
        });
    size_t n = 0;
    for (auto &type : ParticleType::list_all()) {
      if (n++ % mc::bound(5, 1))
        continue;
      one("particle " + type.name(), [&](ParticleData &p) {
        const FourVector k = p.momentum();
        const int id = p.id();
        p = ParticleData(type, id);
        p.set_4momentum(k);
        HistoryData h;
        h.p1 = type.pdgcode();
        h.p2 = type.pdgcode();
        p.set_history(std::move(h));
      });
    }
    for (int n1 : {2, 17, 500, 3000}) {
      key = s.str() + mc::fmt(": %d particles", n1);
      mc::cur(key);
      mc::state(key);
      run(s, {{1, 0, 3., false, {{'s', n1, 0, 0}, {'e', n1 - 1, 0, 0}}}},
          [&](int i) { return ordinary(i % 11); });
    }
  }
  // event labels, impact parameter, weights
  for (auto &s : list) {
    if (!mc::mine(job++))
      continue;
    for (int ev : {0, 1, 99999, 2147483647})
      for (int en : {0, 3, 2147483647})
        for (double b : {0., -1., 0.0004, 9.9996, 123.4567}) {
          key = s.str() + mc::fmt(": event %d ensemble %d impact %g", ev, en,
                                  b);
          mc::cur(key);
          mc::state(key);
          run(s, {{ev, en, b, false, {{'s', 1, 0, 0}, {'e', 2, 0, 0}}}},
              ordinary);
        }
    if (s.content == "Collisions")
      for (double w : {0., 1., 0.33333333333, 12345.678901234, 1e-12, 2e7,
                       -1.5}) {
        for (int which = 0; which < 3; which++) {
          Op o{'i', 2, 2, 1};
          (which == 0 ? o.rho : which == 1 ? o.w : o.pw) = w;
          key = s.str() + mc::fmt(": interaction weight %d=%g", which, w);
          mc::cur(key);
          mc::state(key);
          run(s, {{0, 0, 1., false, {{'s', 1, 0, 0}, o, {'e', 2, 0, 0}}}},
              ordinary);
        }
      }
  }
}

/// Every selection of up to three (two) quantities, valid or not.
void selections(uint64_t &job) {
  std::vector<std::string> names;
  for (auto &u : kUnit)
    names.push_back(u.first);
  names.push_back("charge ");
  names.push_back("energy");
  const auto alias = [](const std::string &a, const std::string &b) {
    auto is = [&](const char *x, const char *y) {
      return (a == x && b == y) || (a == y && b == x);
    };
    return is("ID", "id") || is("eta", "eta_s") || is("Rap", "y_rap");
  };
  for (const char *f : {"ASCII", "Binary"})
    for (size_t i = 0; i < names.size(); i++) {
      if (!mc::mine(job++))
        continue;
      for (size_t j = 0; j <= names.size(); j++)
        for (size_t k = 0; k <= (mc::thorough() ? names.size() : 0); k++) {
          if (j == names.size() && k != 0)
            continue;
          mc::OutSpec s;
          s.format = f;
          s.content = "Particles";
          s.only_final = OutputOnlyFinal::No;
          s.quantities = {names[i]};
          if (j < names.size())
            s.quantities.push_back(names[j]);
          if (mc::thorough() && k < names.size() && j < names.size())
            s.quantities.push_back(names[k]);
          bool valid = true;
          for (size_t a = 0; a < s.quantities.size(); a++) {
            valid &= kUnit.count(s.quantities[a]) > 0;
            for (size_t b = 0; b < a; b++)
              valid &= s.quantities[a] != s.quantities[b] &&
                       !alias(s.quantities[a], s.quantities[b]);
          }
          key = s.str();
          mc::cur(key);
          mc::state(key);
          bool threw = false;
          try {
            run(s, {{0, 0, 1., false, {{'s', 2, 0, 0}, {'e', 1, 0, 0}}}},
                ordinary);
          } catch (const std::invalid_argument &) {
            threw = true;
          }
          if (threw == valid)
            mc::viol(key, threw ? "a valid selection of quantities is refused"
                                : "an invalid selection is accepted");
        }
    }
}

/// vHLLE initial conditions: everything but the spectators is listed.
void vhlle(uint64_t &job) {
  if (!mc::mine(job++))
    return;
  mc::OutSpec s;
  s.format = "vHLLE";
  s.content = "Initial_Conditions";
  for (int mask = 0; mask < 64; mask++) {
    const std::string dir = mc::G().scratch + "/v";
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir);
    key = mc::fmt("vHLLE output, spectator mask %d", mask);
    file = mc::file_name(s);
    mc::cur(key);
    mc::state(key);
    std::vector<Ev> evs;
    {
      auto o = mc::make_output(s, dir);
      for (int e = 0; e < 2; e++) {
        Ev ev{e, 0, 0., false, {}};
        Particles none;
        o->at_eventstart(none, {e, 0}, mc::event_info());
        Block st;
        st.kind = 's';
        ev.blocks.push_back(st);
        for (int k = 0; k < 3; k++) {
          ParticleData p = ordinary(3 * e + k);
          p.set_4position(FourVector(std::sqrt(4. + k * k), 0.5, k, -k));
          HistoryData h;
          h.collisions_per_particle = mask >> (3 * e + k) & 1;
          p.set_history(std::move(h));
          mc::FixedAction a({p}, {}, 2., ProcessType::Fluidization, 0., 0.);
          o->at_interaction(a, 0.);
          if (mask >> (3 * e + k) & 1) {
            Block b;
            b.kind = 'i';
            b.nin = 1;
            b.parts = {record(p)};
            ev.blocks.push_back(b);
          }
        }
        o->at_eventend(none, {e, 0}, mc::event_info());
        evs.push_back(ev);
      }
    }
    check_text(s, dir + "/" + file, evs);
    mc::transition();
    mc::trace();
  }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  ParticleType::create_type_list(
      mc::slurp(mc::repo() + "/input/particles.txt") +
      "\nd  1.8756 0 + 1000010020\n");
  DecayModes::load_decaymodes(
      mc::slurp(mc::repo() + "/input/decaymodes.txt"));
  uint64_t job = 0;
  structure(job);
  values(job);
  selections(job);
  vhlle(job);
  return mc::finish();
}
