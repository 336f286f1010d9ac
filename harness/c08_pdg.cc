// C08: PDG codes: every code with up to seven digits, every nucleus up to a
// mass number, and all short strings, against the PDG numbering scheme.
#include <cstdlib>
#include <sstream>

#include "mc.h"
#include "smash/pdgcode.h"

using namespace smash;

namespace {
struct Model {
  int n, nr, nl, q1, q2, q3, j, sign;
  bool nucleus = false;
  int L = 0, Z = 0, A = 0, I = 0;
  bool hadron() const { return !nucleus && q2 && q3; }
  bool baryon() const { return hadron() && q1; }
  bool meson() const { return hadron() && !q1; }
  long decimal() const {
    if (nucleus) return sign * (1000000000L + L * 10000000L + Z * 10000L + A * 10 + I);
    return sign * (n * 1000000L + nr * 100000 + nl * 10000 + q1 * 1000 + q2 * 100 +
                   q3 * 10 + j);
  }
  bool self() const {  // is its own antiparticle
    if (nucleus) return false;
    if (hadron()) return !q1 && q2 == q3;
    return q3 != 1;
  }
  bool valid() const {
    if (nucleus) return true;
    const bool special = j == 0 && (decimal() == 130 || decimal() == 310);
    if (baryon()) {
      if (j == 0 || j % 2) return false;
    } else if (meson()) {
      if (j % 2 == 0 && !special) return false;
    } else if (j == 0 && (decimal() != 0 || sign < 0)) {
      return false;
    }
    return sign > 0 || !self();
  }
  // number of quarks minus antiquarks of a flavour (d u s c b t)
  int net(int f) const {
    if (nucleus) {
      const int N = A - Z - L;
      return sign * (f == 1 ? Z + 2 * N + L : f == 2 ? 2 * Z + N + L : f == 3 ? L : 0);
    }
    if (!hadron()) return 0;
    if (baryon()) return sign * ((q1 == f) + (q2 == f) + (q3 == f));
    if (q2 == q3) return 0;
    // the heavier one is a quark if it is of up type, else an antiquark
    const int heavy = std::max(q2, q3), light = std::min(q2, q3);
    const int h = heavy % 2 == 0 ? 1 : -1;
    return sign * ((heavy == f ? h : 0) + (light == f ? -h : 0));
  }
  int charge3() const {
    int c = 0;
    for (int f = 1; f <= 6; f++) c += (f % 2 ? -1 : 2) * net(f);
    return c;
  }
};

void compare(const Model &m, const PdgCode &c, const std::string &how) {
  const std::string name = how + mc::fmt(" %ld", m.decimal());
  auto bad = [&](const char *what, long got, long want) {
    if (got != want) mc::viol(name, mc::fmt("%s is %ld instead of %ld", what, got, want));
  };
  bad("decimal code", c.get_decimal(), m.decimal());
  if (c.string() != std::to_string(m.decimal())) mc::viol(name, "string() is " + c.string());
  const bool h = m.hadron();
  bad("is_hadron", c.is_hadron(), h);
  bad("is_baryon", c.is_baryon(), m.baryon());
  bad("is_meson", c.is_meson(), m.meson());
  bad("is_nucleus", c.is_nucleus(), m.nucleus);
  bad("baryon number", c.baryon_number(), m.nucleus ? m.sign * m.A : m.baryon() ? m.sign : 0);
  for (int f = 1; f <= 6; f++) bad("net quark number", c.net_quark_number(f), m.net(f));
  bad("isospin", c.isospin3(), m.net(2) - m.net(1));
  bad("strangeness", c.strangeness(), -m.net(3));
  bad("charm", c.charmness(), m.net(4));
  bad("bottomness", c.bottomness(), -m.net(5));
  if (h || m.nucleus) {
    bad("3 x charge", 3 * c.charge(), m.charge3());
  } else if (m.q3 == 1) {
    bad("charge", c.charge(), -(m.j % 2) * m.sign);
  } else if (m.decimal() != 24) {
    // (24 with excitation digits is not a known particle)
    if (!(m.q1 == 0 && m.q2 == 0 && m.q3 == 2 && m.j == 4)) bad("charge", c.charge(), 0);
  } else {
    bad("charge", c.charge(), 1);
  }
  bad("antiparticle sign", c.antiparticle_sign(), m.sign);
  bad("has_antiparticle", c.has_antiparticle(), !m.self());
  if (!m.nucleus) {
    bad("is_lepton", c.is_lepton(), !m.q1 && !m.q2 && m.q3 == 1);
    bad("is_neutrino", c.is_neutrino(), !m.q1 && !m.q2 && m.q3 == 1 && m.j % 2 == 0);
    const long d = m.decimal(), a = std::labs(d);
    bad("is_nucleon", c.is_nucleon(), a == 2212 || a == 2112);
    bad("is_proton", c.is_proton(), a == 2212);
    bad("is_neutron", c.is_neutron(), a == 2112);
    bad("is_Nstar1535", c.is_Nstar1535(), a == 22212 || a == 22112);
    bad("is_Delta", c.is_Delta(), a == 2224 || a == 2214 || a == 2114 || a == 1114);
    bad("is_kaon", c.is_kaon(), a == 321 || a == 311);
    bad("is_pion", c.is_pion(), a == 211 || d == 111);
    bad("is_rho", c.is_rho(), a == 213 || d == 113);
    bad("is_omega", c.is_omega(), d == 223);
    bad("is_Sigmastar", c.is_Sigmastar(), a == 3224 || a == 3214 || a == 3114);
    // hyperons in standard order of their digits
    if (m.baryon() && m.q1 == 3) {
      bad("is_hyperon", c.is_hyperon(), 1);
      bad("is_Omega", c.is_Omega(), m.q2 == 3 && m.q3 == 3);
      bad("is_Xi", c.is_Xi(), m.q2 == 3 && m.q3 != 3);
      bad("is_Lambda", c.is_Lambda(), m.q2 == 1 && m.q3 == 2);
      bad("is_Sigma", c.is_Sigma(), m.q2 != 3 && !(m.q2 == 1 && m.q3 == 2));
    } else {
      bad("is_hyperon", c.is_hyperon(), 0);
      bad("is_Lambda", c.is_Lambda() || c.is_Sigma() || c.is_Xi() || c.is_Omega(), 0);
    }
    bad("is_charmonia", c.is_charmonia(), m.meson() && m.q2 == 4 && m.q3 == 4);
    if (h) {
      bad("spin", c.spin(), m.j ? m.j - 1 : 0);
      bad("spin degeneracy", c.spin_degeneracy(), m.j ? m.j : 1);
      // constituents of a flavour, hidden ones included
      for (int f : {3, 4, 5}) {
        double want = 0;
        if (m.baryon())
          want = ((m.q1 == f) + (m.q2 == f) + (m.q3 == f)) / 3.;
        else
          want = ((m.q2 == f) + (m.q3 == f)) / 2.;
        const double got = f == 3 ? c.frac_strange() : f == 4 ? c.frac_charm() : c.frac_bottom();
        if (std::fabs(got - want) > 1e-12)
          mc::viol(name, mc::fmt("fraction of flavour %d is %g instead of %g", f, got, want));
      }
      bad("is_heavy_flavor", c.is_heavy_flavor(),
          m.q1 == 4 || m.q2 == 4 || m.q3 == 4 || m.q1 == 5 || m.q2 == 5 || m.q3 == 5);
      const auto q = c.quark_content();
      if (m.baryon() || m.q2 >= m.q3) {
        for (int f = 1; f <= 6; f++) {
          int s = 0;
          for (int x : q) s += x == f ? 1 : x == -f ? -1 : 0;
          bad("quark content", s, m.net(f));
        }
        int count = 0;
        for (int x : q) count += x != 0;
        bad("number of valence quarks", count, m.baryon() ? 3 : 2);
      }
      // with this many quarks (-: antiquarks) it can be the end of a string
      for (int v : {-2, -1, 1, 2})
        bad("contains_enough_valence_quarks", c.contains_enough_valence_quarks(v),
            m.meson() ? std::abs(v) == 1 : v * m.sign > 0);
    } else {
      bad("heavy flavour of non-hadron", c.is_heavy_flavor(), 0);
      bad("strange fraction of non-hadron", c.frac_strange() != 0, 0);
    }
    bad("nucleus numbers", c.nucleus_A() + c.nucleus_p() + c.nucleus_n() + c.nucleus_La(), 0);
  } else {
    bad("protons", c.nucleus_p(), m.sign > 0 ? m.Z : 0);
    bad("neutrons", c.nucleus_n(), m.sign > 0 ? m.A - m.Z - m.L : 0);
    bad("Lambdas", c.nucleus_La(), m.sign > 0 ? m.L : 0);
    bad("antiprotons", c.nucleus_ap(), m.sign < 0 ? m.Z : 0);
    bad("antineutrons", c.nucleus_an(), m.sign < 0 ? m.A - m.Z - m.L : 0);
    bad("anti-Lambdas", c.nucleus_aLa(), m.sign < 0 ? m.L : 0);
    bad("mass number", c.nucleus_A(), m.A);
    bad("is_deuteron", c.is_deuteron(), m.A == 2 && m.Z == 1 && !m.L && !m.I);
    bad("is_triton", c.is_triton(), m.A == 3 && m.Z == 1 && !m.L && !m.I);
    if (m.A == 2) bad("spin", c.spin(), 2);
    if (m.A == 3) bad("spin", c.spin(), 1);
    if (m.A == 4) bad("spin", c.spin(), 0);
  }
  // round trips
  if (PdgCode::from_decimal(int(m.decimal())) != c) mc::viol(name, "from_decimal differs");
  if (m.decimal() != 0 && PdgCode(c.string()) != c) mc::viol(name, "from string() differs");
  if (!m.self()) {
    const PdgCode a = c.get_antiparticle();
    if (a.get_decimal() != -m.decimal() || !(a != c) || a.get_antiparticle() != c)
      mc::viol(name, "wrong antiparticle " + a.string());
    if (!m.nucleus && (!a.is_antiparticle_of(c) || !c.is_antiparticle_of(a)))
      mc::viol(name, "is_antiparticle_of fails");
    if (a.charge() != -c.charge() || a.baryon_number() != -c.baryon_number() ||
        a.strangeness() != -c.strangeness())
      mc::viol(name, "the antiparticle does not have opposite charges");
    if ((a < c) == (c < a)) mc::viol(name, "the order is not strict");
  }
  PdgCode g = c;
  g.deexcite();
  if (g.charge() != c.charge() || g.baryon_number() != c.baryon_number() ||
      g.strangeness() != c.strangeness() || g.antiparticle_sign() != c.antiparticle_sign())
    mc::viol(name, "deexcite changes charges");
  if (!m.nucleus && std::labs(g.get_decimal()) != std::labs(m.decimal()) % 10000)
    mc::viol(name, "deexcite gives " + g.string());
  mc::eval();
  mc::trace();
}

template <class F>
bool make(F f, PdgCode &c) {
  try {
    c = f();
    return true;
  } catch (PdgCode::InvalidPdgCode &) {
    return false;
  }
}

void all_codes() {
  uint64_t job = 0;
  const bool deep = mc::thorough();
  const std::vector<int> ex =
      deep ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int>{0, 1, 9};
  for (int n : ex)
    for (int nr : ex)
      for (int nl : ex) {
        if (!mc::mine(job++) || mc::too_many()) continue;
        for (int q1 = 0; q1 <= 7; q1++)
          for (int q2 = 0; q2 <= 7; q2++)
            for (int q3 = 0; q3 <= 7; q3++)
              for (int j = 0; j <= 9; j++)
                for (int sign : {1, -1}) {
                  Model m{n, nr, nl, q1, q2, q3, j, sign};
                  const bool ok = m.valid() && q1 < 7 && q2 < 7 && q3 < 7;
                  const int32_t hex = sign * (n << 24 | nr << 20 | nl << 16 | q1 << 12 |
                                              q2 << 8 | q3 << 4 | j);
                  if (sign < 0 && hex == 0) continue;
                  const std::string text = std::to_string(m.decimal());
                  if ((hex & 0xfff) == 0x18) mc::cur("code " + text);
                  PdgCode c;
                  for (int way = 0; way < 5; way++) {
                    if (way == 1 && m.decimal() == 0) continue;
                    const char *names[] = {"number", "string", "signed string", "64 bit",
                                           "decimal"};
                    const bool got =
                        make([&] {
                          switch (way) {
                            case 0: return PdgCode(hex);
                            case 1: return PdgCode(text);
                            case 2: return PdgCode((sign > 0 ? "+" : "") + text);
                            case 3: return PdgCode(int64_t(hex));
                            default: return PdgCode::from_decimal(int(m.decimal()));
                          }
                        }, c);
                    if (got != ok) {
                      mc::viol(std::string(names[way]) + " " + text,
                               got ? "accepted" : "refused");
                    } else if (ok) {
                      if (c.code() != hex) mc::viol("code " + text, "code() differs");
                      if (way == 0) {
                        compare(m, c, "code");
                        mc::G().states++;
                      } else if (c != PdgCode(hex)) {
                        mc::viol(std::string(names[way]) + " " + text, "differs");
                      }
                    }
                  }
                  mc::transition();
                }
      }
}

void nuclei() {
  uint64_t job = 0;
  const int amax = mc::thorough() ? 999 : 250;
  for (int A = 1; A <= amax; A++) {
    if (!mc::mine(job++) || mc::too_many()) continue;
    for (int Z = 0; Z <= A; Z++)
      for (int L : {0, 1, 2})
        for (int I : {0, 1}) {
          if (Z + L > A || (I && A > 4)) continue;
          for (int sign : {1, -1}) {
            Model m{0, 0, 0, 0, 0, 0, 0, sign};
            m.nucleus = true;
            m.L = L, m.Z = Z, m.A = A, m.I = I;
            const std::string text = std::to_string(m.decimal());
            mc::cur("nucleus " + text);
            PdgCode c;
            if (!make([&] { return PdgCode(text); }, c)) {
              mc::viol("nucleus " + text, "refused");
              continue;
            }
            compare(m, c, "nucleus");
            PdgCode d;
            const int64_t hex = std::stoll(text, nullptr, 16);
            if (!make([&] { return PdgCode(hex); }, d) || d != c)
              mc::viol("nucleus " + text, "differs when made from a number");
            mc::G().states++;
            mc::transition();
          }
        }
  }
}

// all strings over a small alphabet, and what streams make of them
void strings() {
  uint64_t job = 0;
  const std::string al = mc::thorough() ? "+-0123479afAgG. x" : "+-01239aFg. ";
  const int len = 4;
  for (char first : al) {
    if (!mc::mine(job++)) continue;
    std::vector<std::string> todo = {std::string(1, first)};
    for (size_t i = 0; i < todo.size() && !mc::too_many(); i++) {
      const std::string s = todo[i];
      if (s.size() < len)
        for (char c : al) todo.push_back(s + c);
      mc::cur("string '" + s + "'");
      // the digits, if it is a number
      size_t k = s[0] == '+' || s[0] == '-';
      bool number = k < s.size();
      std::vector<int> d;
      for (size_t x = k; x < s.size(); x++) {
        if (!isxdigit(s[x])) number = false;
        d.push_back(isdigit(s[x]) ? s[x] - '0' : tolower(s[x]) - 'a' + 10);
      }
      Model m{0, 0, 0, 0, 0, 0, 0, s[0] == '-' ? -1 : 1};
      bool ok = number;
      if (number) {
        while (d.size() < 4) d.insert(d.begin(), 0);
        m.q1 = d[0], m.q2 = d[1], m.q3 = d[2], m.j = d[3];
        if (m.q1 > 6 || m.q2 > 6 || m.q3 > 6) ok = false;
        ok = ok && m.valid();
      }
      PdgCode c;
      const bool got = make([&] { return PdgCode(s); }, c);
      mc::transition();
      if (got != ok) {
        mc::viol("string '" + s + "'", got ? "accepted" : "refused");
        continue;
      }
      mc::state(s);
      if (ok && m.j < 10) compare(m, c, "string '" + s + "'");
      // reading from a stream
      if (s.find(' ') == std::string::npos) {
        std::istringstream in(s + " 211");
        PdgCode x(0x22), y;
        in >> x;
        if (ok ? !in || x != c : !!in || x != PdgCode::invalid())
          mc::viol("stream '" + s + "'", "read as " + x.string());
        if (ok && (!(in >> y) || y != PdgCode(0x211)))
          mc::viol("stream '" + s + "'", "the next code is lost");
      }
    }
  }
  if (mc::mine(job++)) {
    for (std::string s : {"", "123456789", "12345678901", "-12345678901", "2000010020",
                          "1100010020", "100001002", "10000100x0"}) {
      PdgCode c;
      if (make([&] { return PdgCode(s); }, c)) mc::viol("string '" + s + "'", "accepted");
      mc::transition();
    }
    // spins above 4 are spread over the first and last digit
    for (int j1 = 1; j1 <= 6; j1++) {
      const std::string s = std::to_string(j1) + "0002229";
      PdgCode c;
      const int j = 9 + j1;
      const bool got = make([&] { return PdgCode(s); }, c);
      if (got != (j % 2 == 0) || (got && (c.spin() != unsigned(j - 1) || c.string() != s)))
        mc::viol("string '" + s + "'", "wrong spin");
      mc::transition();
    }
    // pairs of leptons
    const int l[] = {0x11, -0x11, 0x12, -0x12, 0x13, -0x13, 0x14, 0x22, 0x111};
    for (int a : l)
      for (int b : l) {
        const int x = std::min(a, b), y = std::max(a, b);
        const bool want = (x == -0x11 && y == 0x11) || (x == -0x13 && y == 0x13) ||
                          (x == -0x11 && y == 0x12) || (x == -0x12 && y == 0x11);
        if (is_dilepton(PdgCode(a), PdgCode(b)) != want)
          mc::viol(mc::fmt("leptons %x %x", a, b), "is_dilepton is wrong");
        for (int c : l)
          if (has_lepton_pair(PdgCode(a), PdgCode(b), PdgCode(c)) !=
              (is_dilepton(PdgCode(a), PdgCode(b)) || is_dilepton(PdgCode(c), PdgCode(b)) ||
               is_dilepton(PdgCode(a), PdgCode(c))))
            mc::viol(mc::fmt("leptons %x %x %x", a, b, c), "has_lepton_pair is wrong");
      }
    // numbers with a digit that is none
    for (int pos = 0; pos < 7; pos++)
      for (int v = 10; v < 16; v++) {
        if (pos == 0) continue;
        const int32_t hex = (0x0000221 & ~(15 << 4 * pos)) | v << 4 * pos;
        PdgCode c;
        if (make([&] { return PdgCode(hex); }, c))
          mc::viol(mc::fmt("number 0x%x", hex), "accepted");
      }
  }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  strings();
  all_codes();
  nuclei();
  mc::sample("code 2212: charge, flavours, spin, class, antiparticle and all "
             "ways to write it");
  return mc::finish();
}
