// C14: the List and ListBox modi start each event with exactly the particles
// of the next event of the given files.
#include "outputs.h"
#include "smash/constants.h"
#include "smash/listmodus.h"

using namespace smash;
namespace fs = std::filesystem;

namespace {
const std::string kDir = fs::current_path().string() + "/lists";

struct Row {  // one particle line
  double t, x, y, z, m, e, px, py, pz;
  std::string pdg;
  int charge;
  std::vector<std::string> more;
};
Row row(const char *pdg, double t, double x, double y, double z, double px,
        double py, double pz) {
  const ParticleType &ty = ParticleType::find(PdgCode(pdg));
  const double m = ty.mass();
  return {t,  x,  y,  z,   m,           std::sqrt(m * m + px * px + py * py + pz * pz),
          px, py, pz, pdg, ty.charge(), {}};
}
std::string line(const Row &r, int id = 0, bool defaults = true) {
  std::string s = mc::fmt("%.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g "
                          "%.17g %s", r.t, r.x, r.y, r.z, r.m, r.e, r.px, r.py,
                          r.pz, r.pdg.c_str());
  if (defaults)
    s += mc::fmt(" %d %d", id, r.charge);
  for (auto &q : r.more)
    s += " " + q;
  return s;
}
using Event = std::vector<Row>;
void put(const std::string &name, const std::string &text) {
  fs::create_directories(kDir);
  std::ofstream f(kDir + "/" + name, std::ios::binary);
  f << text;
}
void clear() {
  fs::remove_all(kDir);
  fs::create_directories(kDir);
}
Configuration conf(bool box, const std::string &file, int shift,
                   const std::string &optional = "") {
  std::string y = std::string("Modi:\n  ") + (box ? "ListBox" : "List") +
                  ":\n    File_Directory: " + kDir + "\n";
  if (shift < 0)
    y += "    Filename: " + file + "\n";
  else
    y += "    File_Prefix: " + file + "\n    Shift_Id: " +
         std::to_string(shift) + "\n";
  if (!optional.empty())
    y += "    Optional_Quantities: " + optional + "\n";
  if (box)
    y += "    Length: 4.0\n";
  return mc::config(y);
}
const ExperimentParameters &par() {
  static const ExperimentParameters p = mc::params();
  return p;
}
const ExperimentParameters &par_spin() {
  static const ExperimentParameters p = [] {
    mc::ParamOptions o;
    o.spin = SpinInteractionType::On;
    return mc::params(o);
  }();
  return p;
}

/// What an event must look like after reading.
std::string compare(const Event &ev, const Particles &ps, double start) {
  double t0 = 0;
  bool same = true;
  for (size_t i = 0; i < ev.size(); i++) {
    t0 = i ? std::min(t0, ev[i].t) : ev[i].t;
    same &= ev[i].t == ev[0].t;
  }
  if (ps.size() != ev.size())
    return mc::fmt("%d particles instead of %d", int(ps.size()),
                   int(ev.size()));
  if (start != t0)
    return mc::fmt("start time %.17g instead of %.17g", start, t0);
  size_t i = 0;
  for (const ParticleData &p : ps) {
    const Row &r = ev[i++];
    const FourVector k(r.e, r.px, r.py, r.pz);
    FourVector x(r.t, r.x, r.y, r.z);
    if (!same)
      x = FourVector(t0, x.threevec() + (t0 - r.t) / r.e * k.threevec());
    if (p.pdgcode() != PdgCode(r.pdg))
      return "species " + p.pdgcode().string() + " instead of " + r.pdg;
    for (int c = 0; c < 4; c++) {
      if (!mc::close_to(p.momentum()[c], k[c], 1e-12 * (1 + r.e)))
        return "momentum " + mc::str(p.momentum()) + " instead of " + mc::str(k);
      if (!mc::close_to(p.position()[c], x[c], 1e-11 * (1 + std::fabs(x[c]))))
        return "position " + mc::str(p.position()) + " instead of " + mc::str(x);
    }
    if (p.formation_time() != r.t)
      return mc::fmt("formation time %.17g instead of %.17g",
                     p.formation_time(), r.t);
    if (r.t > t0 && p.xsec_scaling_factor() != 0.)
      return "a particle can interact before it was created";
    if (r.t == t0 && p.xsec_scaling_factor() != 1.)
      return "a particle that exists cannot interact";
  }
  return "";
}

/// Reads everything with the modus, compares with the expected events.
std::string read_all(bool box, Configuration cfg,
                     const std::vector<Event> &expected, bool reuse) {
  std::shared_ptr<ListModus> m;  // remembers the actual type
  if (box)
    m = std::make_shared<ListBoxModus>(std::move(cfg), par());
  else
    m = std::make_shared<ListModus>(std::move(cfg), par());
  Particles keep;
  for (size_t e = 0; e < expected.size(); e++) {
    Particles fresh;
    Particles &ps = reuse ? keep : fresh;
    ps.reset();
    const double t = m->initial_conditions(&ps, par());
    mc::transition();
    std::string err = compare(expected[e], ps, t);
    if (!err.empty())
      return mc::fmt("event %d: ", int(e)) + err;
  }
  for (int k = 0; k < 2; k++) {
    Particles ps;
    try {
      m->initial_conditions(&ps, par());
    } catch (const std::runtime_error &) {
      continue;
    }
    return mc::fmt("a further event with %d particles after the last one",
                   int(ps.size()));
  }
  return "";
}

// ---- A: histories of files, events, particles, in all styles ---------------
const char *kSpecies[] = {"2212", "-211", "111", "-2112"};
Event make_event(int n, int key, bool times) {
  Event ev;
  for (int i = 0; i < n; i++)
    ev.push_back(row(kSpecies[(key + i) % 4], times ? 0.25 * ((key + 2 * i) % 3) : 1.5,
                     0.1 * key + i, -0.3 * i, 2. + 0.01 * key, 0.1 * i, 0.05 * key,
                     -0.2));
  return ev;
}
enum Style { Oscar, Documented, Bare };
std::string text(const std::vector<Event> &evs, Style st, int header,
                 bool newline, bool blank) {
  std::string s;
  if (st != Bare) {
    const char *h[] = {"#!OSCAR2013 particle_lists t x y z mass p0 px py pz pdg "
                       "ID charge\n",
                       "# Units: fm fm fm fm GeV GeV GeV GeV GeV none none e\n",
                       "# SMASH-3.3\n"};
    for (int i = 0; i < header; i++)
      s += h[i];
  } else {
    for (int i = 0; i < header; i++)
      s += mc::fmt("# comment %d\n", i);
  }
  for (size_t e = 0; e < evs.size(); e++) {
    if (st == Oscar)
      s += mc::fmt("# event %d ensemble 0 out %d\n", int(e), int(evs[e].size()));
    if (st == Documented)
      s += mc::fmt("# event %d\n", int(e));
    for (size_t i = 0; i < evs[e].size(); i++) {
      s += line(evs[e][i], int(i)) + "\n";
      if (blank)
        s += i % 2 ? "\n" : "   # just a comment\n";
    }
    if (st == Oscar)
      s += mc::fmt("# event %d ensemble 0 end 0 impact   0.000 "
                   "scattering_projectile_target no\n", int(e));
    if (st == Documented)
      s += mc::fmt("# event %d end\n", int(e));
    if (blank && st != Bare)
      s += "\n";
  }
  if (!newline && !s.empty() && s.back() == '\n')
    s.pop_back();
  return s;
}

void histories() {
  const int maxp = mc::thorough() ? 7 : 6;
  uint64_t idx = 0;
  auto run = [&](const std::vector<std::vector<int>> &files, bool filename,
                 Style st, int header, bool newline, bool blank, int shift,
                 bool times) {
    if (!mc::mine(idx++))
      return;
    clear();
    std::vector<Event> all;
    std::string what;
    int key = 0;
    for (size_t f = 0; f < files.size(); f++) {
      std::vector<Event> evs;
      what += "[";
      for (int n : files[f]) {
        evs.push_back(make_event(n, key++, times));
        all.push_back(evs.back());
        what += mc::fmt("%d ", n);
      }
      what += "]";
      put(filename ? "single.dat" : mc::fmt("ev%d", shift + int(f)),
          text(evs, st, header, newline, blank));
    }
    what += mc::fmt(" style %d header %d newline %d blank %d %s times %d",
                    int(st), header, newline, blank,
                    filename ? "Filename"
                             : mc::fmt("Shift_Id %d", shift).c_str(), times);
    mc::cur(what);
    mc::trace();
    mc::state(what);
    for (bool box : {false, true}) {
      std::string err;
      try {
        err = read_all(box, conf(box, filename ? "single.dat" : "ev",
                                 filename ? -1 : shift), all, key % 2);
      } catch (const std::exception &e) {
        err = std::string("exception ") + e.what();
      }
      mc::eval();
      if (!err.empty())
        mc::viol("history " + what, (box ? "ListBox: " : "List: ") + err);
    }
  };
  // all event size lists of a file
  std::vector<std::vector<int>> lists;
  const std::vector<int> sizes = {0, 1, 2, maxp};
  for (int a : sizes) {
    lists.push_back({a});
    for (int b : sizes) {
      lists.push_back({a, b});
      for (int c : sizes)
        lists.push_back({a, b, c});
    }
  }
  for (int n = 1; n <= 40; n++)
    lists.push_back({n});
  for (Style st : {Oscar, Documented})
    for (auto &l : lists)
      for (int header = 0; header <= 3; header++)
        for (bool newline : {true, false})
          for (bool blank : {false, true})
            for (bool filename : {true, false}) {
              if ((blank || header == 2) && !mc::thorough() && l.size() == 3)
                continue;
              run({l}, filename, st, header, newline, blank, 0, header % 2);
            }
  for (int n = 1; n <= 40; n++)
    for (int header = 0; header <= 3; header++)
      for (bool newline : {true, false})
        for (bool blank : {false, true})
          for (bool filename : {true, false})
            run({{n}}, filename, Bare, header, newline, blank, 0, n % 2);
  // several files
  const std::vector<int> fsz = {0, 1, 6};
  std::vector<std::vector<int>> fl;
  for (int a : fsz) {
    fl.push_back({a});
    for (int b : fsz)
      fl.push_back({a, b});
  }
  for (Style st : {Oscar, Documented})
    for (auto &a : fl)
      for (auto &b : fl)
        for (int shift : {0, 9})
          for (bool newline : {true, false}) {
            run({a, b}, false, st, 2, newline, false, shift, true);
            if (a.size() == 1 || mc::thorough())
              for (auto &c : fl)
                run({a, b, c}, false, st, 3, newline, false, shift, false);
          }
  for (int a = 1; a <= 6; a++)
    for (int b = 1; b <= 6; b++)
      for (bool newline : {true, false})
        for (int header : {0, 3})
          run({{a}, {b}}, false, Bare, header, newline, false, 2, true);
}

// ---- B: optional quantities -------------------------------------------------
struct Opt {
  std::string field, value;
  bool valid;
};
void optional_quantities() {
  std::vector<Opt> os;
  for (const char *v : {"0", "17", "-1", "nonsense"})
    os.push_back({"ID", v, true});
  for (const char *v : {"1", "0", "-1", "2"})
    os.push_back({"charge", v, std::string(v) == "1"});
  for (const char *v : {"0", "1", "37", "-1"})
    os.push_back({"ncoll", v, v[0] != '-'});
  for (const char *v : {"0", "1.5", "4.25", "-3", "1e3"})
    os.push_back({"form_time", v, true});
  for (const char *v : {"0", "0.5", "1", "1.5", "-0.1"})
    os.push_back({"xsecfac", v, v[0] != '-' && std::string(v) != "1.5"});
  for (int v : {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17,
                20, 21, 22, 40, 41, 42, 43, 44, 45, 46, 47, 48, 60, 90, 91}) {
    const bool known = (v >= 0 && v <= 15) || v == 21 || (v >= 41 && v <= 47) || v == 90;
    os.push_back({"proc_type", std::to_string(v), known});
  }
  for (const char *v : {"0", "1.5", "-2", "2.5"})
    os.push_back({"time_last_coll", v, std::string(v) != "2.5"});
  for (const char *f : {"pdg_mother1", "pdg_mother2"})
    for (const char *v : {"0", "2212", "-211", "2224", "9999999", "77"})
      os.push_back({f, v, v[0] != '9' && v[0] != '7'});
  for (const char *f : {"spin0", "spinx", "spiny", "spinz"})
    for (const char *v : {"0", "0.25", "-0.5"})
      os.push_back({f, v, true});
  for (const char *v : {"0", "0.5", "1", "1.5", "-0.1"})
    os.push_back({"perturbative_weight", v, v[0] != '-' && std::string(v) != "1.5"});
  os.push_back({"colour", "1", false});

  uint64_t idx = 0;
  auto check = [&](const std::vector<Opt> &sel) {
    if (!mc::mine(idx++))
      return;
    clear();
    Row r = row("2212", 1.5, 1, 2, 3, 0.1, 0.2, 0.3);
    std::string list, what;
    bool valid = true;
    for (auto &o : sel) {
      r.more.push_back(o.value);
      list += (list.empty() ? "[" : ", ") + o.field;
      valid &= o.valid;
      what += o.field + "=" + o.value + " ";
    }
    list += "]";
    if (sel.empty())
      list = "[]";
    mc::cur(what);
    // the second particle is without anything special
    put("single.dat", line(r, 0, false) + "\n");
    ListModus m(conf(false, "single.dat", -1, list), par());
    Particles ps;
    bool failed = false;
    std::string msg;
    try {
      m.initial_conditions(&ps, par());
    } catch (const std::exception &e) {
      failed = true;
      msg = e.what();
    }
    mc::transition();
    mc::trace();
    mc::state(what);
    mc::eval();
    if (failed == valid) {
      mc::viol("optional " + what, valid ? "rejected: " + msg : "accepted");
      return;
    }
    if (failed)
      return;
    double ft = 1.5, xf = 1, tl = ps.front().get_history().time_last_collision, pw = 1.;
    {
      static const ParticleData ref(ParticleType::find(PdgCode(0x2212)));
      pw = ref.perturbative_weight();
    }
    int nc = 0, ptype = 0;
    PdgCode p1(0), p2(0);
    FourVector spin(0, 0, 0, 0);
    for (auto &o : sel) {
      const double d = o.field == "ID" ? 0 : atof(o.value.c_str());
      if (o.field == "ncoll") nc = int(d);
      if (o.field == "form_time") ft = d;
      if (o.field == "xsecfac") xf = d;
      if (o.field == "proc_type") ptype = int(d);
      if (o.field == "time_last_coll") tl = d;
      if (o.field == "pdg_mother1" && d != 0) p1 = PdgCode(o.value);
      if (o.field == "pdg_mother2" && d != 0) p2 = PdgCode(o.value);
      if (o.field == "spin0") spin[0] = d;
      if (o.field == "spinx") spin[1] = d;
      if (o.field == "spiny") spin[2] = d;
      if (o.field == "spinz") spin[3] = d;
      if (o.field == "perturbative_weight") pw = d;
    }
    const ParticleData p = ps.front();
    const HistoryData h = p.get_history();
    std::string err;
    if (p.formation_time() != ft) err += mc::fmt("formation time %g ", p.formation_time());
    if (p.initial_xsec_scaling_factor() != xf)
      err += mc::fmt("initial scaling factor %g ", p.initial_xsec_scaling_factor());
    if (h.collisions_per_particle != nc) err += mc::fmt("ncoll %d ", h.collisions_per_particle);
    if (static_cast<int>(h.process_type) != ptype) err += mc::fmt("process type %d ", int(h.process_type));
    if (h.time_last_collision != tl) err += mc::fmt("last collision %g ", h.time_last_collision);
    if (h.p1 != p1 || h.p2 != p2) err += "mothers " + h.p1.string() + " " + h.p2.string() + " ";
    if (p.perturbative_weight() != pw) err += mc::fmt("weight %g ", p.perturbative_weight());
    for (int c = 0; c < 4; c++) {
      bool given = false;
      for (auto &o : sel)
        given |= o.field == (c == 0 ? "spin0" : c == 1 ? "spinx" : c == 2 ? "spiny" : "spinz");
      if (given && p.spin_vector()[c] != spin[c])
        err += mc::fmt("spin component %d is %g ", c, p.spin_vector()[c]);
    }
    if (!err.empty())
      mc::viol("optional " + what, err);
  };
  check({});
  for (auto &a : os)
    check({a});
  for (auto &a : os)
    for (auto &b : os) {
      if (a.field == b.field)
        continue;
      if (!mc::thorough() && (a.field == "proc_type" || b.field == "proc_type") &&
          (a.value + b.value).size() % 2)
        continue;
      check({a, b});
    }
  // all fields at once, in every rotation, forward and backward
  std::vector<Opt> one;
  for (auto &o : os) {
    bool have = false;
    for (auto &q : one)
      have |= q.field == o.field;
    if (!have && o.valid)
      one.push_back(o);
  }
  for (int pass = 0; pass < 2; pass++) {
    // different valid value in the second pass
    if (pass)
      for (auto &q : one)
        for (auto &o : os)
          if (o.field == q.field && o.valid)
            q = o;
    for (size_t rot = 0; rot < one.size(); rot++) {
      auto v = one;
      std::rotate(v.begin(), v.begin() + rot, v.end());
      check(v);
      std::reverse(v.begin(), v.end());
      check(v);
    }
  }
  // missing columns are an error; spin needs its four components
  if (mc::mine(0)) {
    for (int cut = 1; cut <= 13; cut++) {
      clear();
      std::istringstream full("0 1 2 3 0.938 0.938 0 0 0 2212 0 1 7");
      std::string s, w;
      for (int i = 0; i < cut; i++) {
        full >> w;
        s += w + " ";
      }
      put("single.dat", s + "\n");
      mc::cur("columns " + s);
      ListModus m(conf(false, "single.dat", -1, "[ID, charge, ncoll]"), par());
      Particles ps;
      bool failed = false;
      try {
        m.initial_conditions(&ps, par());
      } catch (const std::exception &) {
        failed = true;
      }
      mc::transition();
      mc::eval();
      if (failed != (cut < 13))
        mc::viol("columns " + s, failed ? "rejected" : "accepted");
    }
    const char *c[] = {"spin0", "spinx", "spiny", "spinz"};
    for (int mask = 0; mask < 16; mask++) {
      std::string l = "[ID";
      for (int i = 0; i < 4; i++)
        if (mask >> i & 1)
          l += std::string(", ") + c[i];
      clear();
      put("single.dat", "0 1 2 3 0.938 0.938 0 0 0 2212 0 0.1 0.2 0.3 0.4\n");
      bool failed = false;
      try {
        ListModus m(conf(false, "single.dat", -1, l + "]"), par_spin());
      } catch (const std::invalid_argument &) {
        failed = true;
      }
      mc::transition();
      mc::eval();
      if (failed != (mask != 15))
        mc::viol(mc::fmt("spin components %d", mask), failed ? "rejected" : "accepted");
    }
  }
}

// ---- C: masses, energies, species ------------------------------------------
void shells() {
  if (!mc::mine(1))
    return;
  for (const char *pdg : {"2212", "211", "111", "22", "3122", "113", "2224"}) {
    const ParticleType &ty = ParticleType::find(PdgCode(pdg));
    for (double dm : {0., 1e-8, 1e-3, -1e-3, 0.3, -0.1})
      for (double de : {0., 1e-3, -1e-2, 1.})
        for (double px : {0., 0.5, 30.}) {
          const double m = ty.mass() + dm;
          if (m < 0)
            continue;
          const double es = std::sqrt(m * m + px * px);
          Row r = row(pdg, 0, 1, 2, 3, px, 0, 0);
          r.m = m;
          r.e = es + de;
          clear();
          put("single.dat", line(r) + "\n");
          const std::string what = mc::fmt("%s mass%+g energy%+g px %g", pdg, dm, de, px);
          mc::cur(what);
          mc::state(what);
          ListModus mo(conf(false, "single.dat", -1), par());
          Particles ps;
          mo.initial_conditions(&ps, par());
          mc::transition();
          mc::eval();
          // stable particles: pole mass; others: given mass
          const bool pole = ty.is_stable() && std::fabs(dm) > 1e-6;
          const double em = pole ? ty.mass() : m;
          const double ee = std::sqrt(em * em + px * px);
          const FourVector k = ps.front().momentum();
          if (k.x1() != px || k.x2() != 0 || k.x3() != 0)
            mc::viol("shell " + what, "momentum " + mc::str(k));
          else if (std::fabs(k.sqr() - em * em) > 1.1e-6 * (1 + px * px * 1e-6) ||
                   std::fabs(k.x0() - ee) > 1.2e-6 * (1 + 1 / ee))
            mc::viol("shell " + what, "energy " + mc::str(k));
        }
  }
  // unknown species are ignored, the others kept
  for (int mask = 0; mask < 8; mask++) {
    clear();
    std::string s;
    Event ev;
    for (int i = 0; i < 3; i++) {
      Row r = row("2212", 1, i, 2, 3, 0.1, 0, 0);
      if (mask >> i & 1) {
        r.pdg = "5218";  // not in the table
        s += line(r) + "\n";
      } else {
        s += line(r) + "\n";
        ev.push_back(r);
      }
    }
    put("single.dat", "# event 0 out 3\n" + s + "# event 0 end 0 impact 0\n");
    mc::cur(mc::fmt("unknown species mask %d", mask));
    std::string err;
    try {
      if (ev.empty())
        ev = {};
      err = read_all(false, conf(false, "single.dat", -1), {ev}, false);
    } catch (const std::exception &e) {
      err = e.what();
    }
    mc::eval();
    if (!err.empty())
      mc::viol(mc::fmt("unknown species mask %d", mask), err);
  }
  for (int col = 0; col < 9; col++) {  // not a number
    if (col == 4)
      continue;
    std::string s;
    const char *v[] = {"0", "1", "2", "3", "0.938", "0.938", "0", "0", "0"};
    for (int i = 0; i < 9; i++)
      s += std::string(i == col ? "nan" : v[i]) + " ";
    clear();
    put("single.dat", s + "2212 0 1\n");
    bool failed = false;
    try {
      ListModus m(conf(false, "single.dat", -1), par());
      Particles ps;
      m.initial_conditions(&ps, par());
    } catch (const std::exception &) {
      failed = true;
    }
    mc::eval();
    if (!failed)
      mc::viol(mc::fmt("nan in column %d", col), "accepted");
  }
}

// ---- D: different times -----------------------------------------------------
void times() {
  const double ts[] = {-1., 0., 0.5, 7.};
  const int n = mc::thorough() ? 4 : 3;
  uint64_t idx = 0;
  int pw = 1;
  for (int len = 1; len <= n; len++) {
    pw *= 4;
    for (int k = 0; k < pw; k++)
      for (int sp = 0; sp < 4; sp++) {
        if (!mc::mine(idx++))
          continue;
        Event ev;
        std::string what = "times";
        int kk = k;
        for (int i = 0; i < len; i++, kk /= 4) {
          ev.push_back(row(kSpecies[(sp + i) % 4], ts[kk % 4], i, -i, 0.5, 0.3 * i,
                           i == 2 ? 5. : 0., -1. * sp));
          what += mc::fmt(" %g", ts[kk % 4]);
        }
        what += mc::fmt(" species %d", sp);
        clear();
        put("single.dat", text({ev}, Oscar, 3, true, false));
        mc::cur(what);
        mc::state(what);
        mc::trace();
        std::string err;
        try {
          err = read_all(false, conf(false, "single.dat", -1), {ev}, false);
        } catch (const std::exception &e) {
          err = e.what();
        }
        mc::eval();
        if (!err.empty())
          mc::viol(what, err);
      }
  }
}

// ---- E: more than two particles at the same place ---------------------------
void same_place() {
  // placements of up to 6 particles of 2 events over 3 places
  const int n = mc::thorough() ? 6 : 5;
  uint64_t idx = 0;
  int pw = 1;
  for (int len = 1; len <= n; len++) {
    pw *= 3;
    for (int k = 0; k < pw; k++)
      for (int split = 0; split <= len; split++)
        for (int files = 0; files < 2; files++) {
          if (!mc::mine(idx++))
            continue;
          std::vector<Event> evs(2);
          std::map<std::pair<int, int>, int> count;
          int kk = k;
          for (int i = 0; i < len; i++, kk /= 3) {
            const int pl = kk % 3, e = i >= split;
            evs[e].push_back(row(kSpecies[i % 4], pl == 2 ? 1. : 0.,
                                 pl == 1 ? 1.5 : 1., 2, 3, 0.1 * i, 0, 0));
            count[{e, pl}]++;
          }
          bool bad = false;
          for (auto &c : count)
            bad |= c.second > 2;
          clear();
          if (files) {
            put("ev0", text({evs[0]}, Oscar, 3, true, false));
            put("ev1", text({evs[1]}, Oscar, 3, true, false));
          } else {
            put("ev0", text(evs, Documented, 3, true, false));
          }
          const std::string what =
              mc::fmt("places %d particles %d events %d files %d", k, len, split, files);
          mc::cur(what);
          mc::state(what);
          bool failed = false;
          try {
            ListModus m(conf(false, "ev", 0), par());
          } catch (const ListModus::InvalidEvents &) {
            failed = true;
          }
          mc::transition();
          mc::eval();
          if (failed != bad)
            mc::viol(what, failed ? "rejected" : "accepted");
        }
  }
}

// ---- F: ListBox keeps particles in the box ----------------------------------
void box_walls() {
  if (!mc::mine(2))
    return;
  clear();
  put("single.dat", "0 1 2 3 0.938 0.938 0 0 0 2212 0 1\n");
  ListBoxModus m(conf(true, "single.dat", -1), par());
  const double xs[] = {-4., -1e-9, 0., 2., std::nextafter(4., 0.), 4., 5.5, 7.9};
  for (double x : xs)
    for (double y : xs)
      for (double z : xs) {
        Particles ps;
        auto p = mc::particle(PdgCode(0x2212), 0.938, 0.1, 0.2, 0.3, 1.25, x, y, z);
        ps.insert(p);
        OutputsList none;
        m.impose_boundary_conditions(&ps, none);
        mc::transition();
        mc::eval();
        const FourVector r = ps.front().position();
        const double in[] = {x, y, z};
        for (int c = 0; c < 3; c++) {
          const double d = (r[c + 1] - in[c]) / 4.;
          if (!(r[c + 1] >= 0 && r[c + 1] <= 4.) || std::fabs(d - std::round(d)) > 1e-12 ||
              r[0] != 1.25 || (in[c] >= 0 && in[c] < 4 && r[c + 1] != in[c]))
            mc::viol(mc::fmt("box %g %g %g", x, y, z), mc::str(r));
        }
      }
  if (m.length() != 4.)
    mc::viol("box length", mc::fmt("%g", m.length()));
}

// ---- G: what SMASH writes can be read back ----------------------------------
void round_trip() {
  uint64_t idx = 0;
  for (bool ext : {false, true})
    for (int n1 : {0, 1, 2, 3, 40})
      for (int n2 : {0, 1, 5})
        for (OutputOnlyFinal of : {OutputOnlyFinal::Yes, OutputOnlyFinal::IfNotEmpty})
          for (const char *fm : {"Oscar2013", "ASCII"}) {
            if (!mc::mine(idx++))
              continue;
            clear();
            mc::OutSpec s;
            s.format = fm;
            s.content = "Particles";
            s.extended = ext && s.format == "Oscar2013";
            s.only_final = of;
            std::string opt = "[ID, charge]";
            if (s.extended)
              opt = "[ID, charge, ncoll, form_time, xsecfac]";
            if (s.format == "ASCII") {
              s.quantities = {"t", "x", "y", "z", "mass", "p0", "px", "py", "pz", "pdg"};
              opt = "[]";
              if (ext) {
                s.quantities.insert(s.quantities.end(),
                                    {"perturbative_weight", "ncoll", "spinx"});
                opt = "[perturbative_weight, ncoll, spinx]";
              }
            }
            const std::string what = s.str() + mc::fmt(" %d %d", n1, n2);
            mc::cur(what);
            mc::state(what);
            std::vector<std::vector<ParticleData>> evs;
            {
              auto out = mc::make_output(s, kDir);
              for (int e = 0; e < 2; e++) {
                Particles ps;
                const int n = e ? n2 : n1;
                for (int i = 0; i < n; i++) {
                  auto p = mc::particle(PdgCode(kSpecies[i % 4]),
                                        ParticleType::find(PdgCode(kSpecies[i % 4])).mass(),
                                        0.1 * i, 0.2, -0.03 * i, 20., 0.5 * i, -0.25 * e, i);
                  p.set_formation_time(20.5);
                  p.set_cross_section_scaling_factor(0.25);
                  p.set_perturbative_weight(0.5);
                  p.set_spin_vector_component(1, 0.125);
                  HistoryData h;
                  h.collisions_per_particle = i;
                  p.set_history(std::move(h));
                  ps.insert(p);
                }
                EventInfo info = mc::event_info(1., n == 0);
                out->at_eventstart(ps, {e, 0}, info);
                out->at_eventend(ps, {e, 0}, info);
                std::vector<ParticleData> v;
                for (auto &p : ps)
                  v.push_back(p);
                // a list without particles is an event, too
                evs.push_back(v);
              }
            }
            std::string err;
            try {
              ListModus m(conf(false, mc::file_name(s), -1, opt), par());
              for (auto &ev : evs) {
                Particles ps;
                m.initial_conditions(&ps, par());
                mc::transition();
                if (ps.size() != ev.size()) {
                  err = mc::fmt("%d particles instead of %d", int(ps.size()), int(ev.size()));
                  break;
                }
                size_t i = 0;
                for (auto &p : ps) {
                  auto &q = ev[i++];
                  bool ok = p.pdgcode() == q.pdgcode();
                  for (int c = 0; c < 4; c++)
                    ok &= mc::rel_close(p.position()[c], q.position()[c], 1e-5, 1e-12) &&
                          mc::rel_close(p.momentum()[c], q.momentum()[c], 2e-8, 1e-6);
                  if (s.extended)
                    ok &= p.get_history().collisions_per_particle ==
                              q.get_history().collisions_per_particle &&
                          p.formation_time() == q.formation_time() &&
                          p.initial_xsec_scaling_factor() == 0.25;
                  else if (s.format == "ASCII" && ext)
                    ok &= p.perturbative_weight() == 0.5 && p.spin_vector()[1] == 0.125;
                  if (!ok && err.empty())
                    err = mc::fmt("particle %d differs", int(i - 1));
                }
              }
            } catch (const std::exception &e) {
              err = e.what();
            }
            mc::trace();
            mc::eval();
            if (!err.empty())
              mc::viol("round trip " + what, err);
          }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_shipped_tables();
  histories();
  optional_quantities();
  shells();
  times();
  same_place();
  box_walls();
  round_trip();
  mc::sample("all sequences of up to 3 events with 0, 1, 2 or 6 particles");
  return mc::finish();
}
