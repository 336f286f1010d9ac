// C21: rectangular lattices: geometry, iteration, neighbours, derivatives and
// histories of changes, for all small lattices, against a map of cells.
#include <array>
#include <optional>

#include "smash/lattice.h"
#include "smash_common.h"

using namespace smash;

namespace {
using A3d = std::array<double, 3>;
using A3i = std::array<int, 3>;
constexpr double kBig = 7.;

struct Geo {
  A3d l, o;
  A3i n;
  bool per;
  std::string str() const {
    return mc::fmt("l=(%g,%g,%g) n=(%d,%d,%d) o=(%g,%g,%g) %s", l[0], l[1], l[2],
                   n[0], n[1], n[2], o[0], o[1], o[2], per ? "periodic" : "open");
  }
  double d(int i) const { return l[i] / n[i]; }
  double centre(int i, int k) const { return o[i] + d(i) * (k + 0.5); }
  int wrap(int i, int k) const { return ((k % n[i]) + n[i]) % n[i]; }
  bool inside(const A3i &k) const {
    for (int i = 0; i < 3; i++)
      if (!per && (k[i] < 0 || k[i] >= n[i])) return false;
    return true;
  }
  int index(const A3i &k) const {
    return wrap(0, k[0]) + n[0] * (wrap(1, k[1]) + n[1] * wrap(2, k[2]));
  }
};
using Lat = RectangularLattice<double>;

void fail(const Geo &g, const std::string &what) {
  mc::viol("lattice " + g.str(), what);
}
Lat make(const Geo &g) {
  return Lat(g.l, g.n, g.o, g.per, LatticeUpdate::EveryTimestep);
}
/// points of interest along direction i (relative to cells, no ties)
std::vector<double> points(const Geo &g, int i, bool out) {
  std::vector<double> r;
  const double d = g.d(i);
  for (int k = out ? -2 : 0; k < g.n[i] + (out ? 2 : 0); k++)
    for (double f : {1e-9, 0.3, 0.5, 1. - 1e-9}) r.push_back(g.o[i] + d * (k + f));
  return r;
}

void geometry(const Geo &g) {
  Lat lat = make(g);
  mc::state(g.str());
  const int N = g.n[0] * g.n[1] * g.n[2];
  if (int(lat.size()) != N || lat.end() - lat.begin() != N)
    fail(g, mc::fmt("%d cells, expected %d", int(lat.size()), N));
  if (lat.n_cells() != g.n || lat.lattice_sizes() != g.l || lat.origin() != g.o ||
      lat.periodic() != g.per || lat.when_update() != LatticeUpdate::EveryTimestep)
    fail(g, "parameters are not kept");
  for (int i = 0; i < 3; i++)
    if (!mc::rel_close(lat.cell_sizes()[i], g.d(i), 1e-14))
      fail(g, "wrong cell size");
  for (auto x : lat)
    if (x != 0.) fail(g, "a new lattice is not empty");
  for (int i = 0; i < N; i++) lat[i] = i + 1;
  for (int z = 0; z < g.n[2]; z++)
    for (int y = 0; y < g.n[1]; y++)
      for (int x = 0; x < g.n[0]; x++) {
        const int i = g.index({x, y, z});
        mc::eval();
        if (lat.index1d(x, y, z) != i) fail(g, "wrong index of a cell");
        const ThreeVector a = lat.cell_center(x, y, z), b = lat.cell_center(i);
        const double c[] = {g.centre(0, x), g.centre(1, y), g.centre(2, z)};
        for (int k = 0; k < 3; k++)
          if (std::fabs(a[k] - c[k]) > 1e-12 * kBig || std::fabs(b[k] - c[k]) > 1e-12 * kBig)
            fail(g, mc::fmt("centre of cell (%d,%d,%d), direction %d: %.17g and %.17g, "
                            "expected %.17g", x, y, z, k, a[k], b[k], c[k]));
        double v = -1;
        if (!lat.value_at(a, v) || v != i + 1)
          fail(g, mc::fmt("the value at the centre of cell %d is %g", i, v));
        const A3i steps[] = {{-1, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0, 1, 0}, {0, 0, -1}, {0, 0, 1}};
        const int got[] = {lat.index_left(x, y, z), lat.index_right(x, y, z),
                           lat.index_down(x, y, z), lat.index_up(x, y, z),
                           lat.index_backward(x, y, z), lat.index_forward(x, y, z)};
        for (int k = 0; k < 6; k++) {
          A3i nb = {x + steps[k][0], y + steps[k][1], z + steps[k][2]};
          const int want = g.inside(nb) ? g.index(nb) : i;
          if (got[k] != want)
            fail(g, mc::fmt("neighbour %d of (%d,%d,%d) is %d, expected %d", k, x, y, z,
                            got[k], want));
        }
      }
  // all points in and around, in a row per direction and on diagonals
  const auto px = points(g, 0, true), py = points(g, 1, true), pz = points(g, 2, true);
  auto one = [&](double x, double y, double z) {
    const double p[] = {x, y, z};
    A3i k;
    for (int i = 0; i < 3; i++) k[i] = int(std::floor((p[i] - g.o[i]) / g.d(i)));
    const bool in = g.inside(k);
    const double want = in ? g.index(k) + 1 : 0.;
    double v = -1;
    mc::eval();
    mc::transition();
    const bool r = lat.value_at(ThreeVector(x, y, z), v);
    if (r != in || v != want)
      fail(g, mc::fmt("value at (%.12g,%.12g,%.12g): %s %g, expected %s %g", x, y, z,
                      r ? "in" : "out", v, in ? "in" : "out", want));
    if (lat.out_of_bounds(k[0], k[1], k[2]) == in) fail(g, "out_of_bounds is wrong");
    if (in && lat.node(k[0], k[1], k[2]) != want) fail(g, "node is wrong");
    // the cell and its neighbours
    std::map<int, int> seen;
    int centre = -1, first = -1;
    lat.iterate_nearest_neighbors(ThreeVector(x, y, z), [&](double &node, int i, int c) {
      if (first < 0) first = i;
      if (i < 0 || i >= N || &node != &lat[i])
        fail(g, "wrong cell in the iteration over neighbours");
      seen[i]++;
      centre = c;
    });
    std::set<int> expected;
    if (in) {
      expected.insert(g.index(k));
      for (int i = 0; i < 3; i++)
        for (int s : {-1, 1}) {
          A3i nb = k;
          nb[i] += s;
          if (g.inside(nb)) expected.insert(g.index(nb));
        }
    }
    std::set<int> got;
    for (auto &s : seen) got.insert(s.first);
    if (got != expected || (in && (centre != g.index(k) || first != centre)))
      fail(g, mc::fmt("the cell at (%.12g,%.12g,%.12g) and its neighbours are wrong: "
                      "%d cells around %d, expected %d around %d",
                      x, y, z, int(got.size()), centre, int(expected.size()),
                      in ? g.index(k) : -1));
  };
  for (auto x : px)
    for (auto y : {py[px.size() % py.size()], py[9 % py.size()]})
      for (auto z : {pz[2], pz[10 % pz.size()]}) one(x, y, z);
  for (auto y : py)
    for (auto x : {px[1], px[9]})
      for (auto z : {pz[9], pz.back()}) one(x, y, z);
  for (auto z : pz)
    for (auto x : {px[8], px[10]})
      for (auto y : {py[8], py[11]}) one(x, y, z);
}

void iterations(const Geo &g) {
  Lat lat = make(g);
  const int N = g.n[0] * g.n[1] * g.n[2];
  for (int i = 0; i < N; i++) lat[i] = i + 1;
  // sub-lattices
  for (int lo = g.per ? -g.n[0] - 1 : 0; lo <= g.n[0]; lo++)
    for (int hi = lo - 1; hi <= (g.per ? 2 * g.n[0] + 1 : g.n[0]); hi++)
      for (int dir = 0; dir < 3; dir++) {
        A3i a = {0, 0, 0}, b = g.n;
        a[dir] = std::min(lo, g.per ? lo : g.n[dir]);
        b[dir] = g.per ? hi : std::min(hi, g.n[dir]);
        std::map<A3i, int> seen;
        mc::transition();
        lat.iterate_sublattice(a, b, [&](double &v, int x, int y, int z) {
          if (&v != &lat[g.index({x, y, z})]) fail(g, "wrong node of the sub-lattice");
          seen[{x, y, z}]++;
        });
        std::map<A3i, int> want;
        for (int z = a[2]; z < b[2]; z++)
          for (int y = a[1]; y < b[1]; y++)
            for (int x = a[0]; x < b[0]; x++) want[{x, y, z}] = 1;
        mc::eval();
        if (seen != want)
          fail(g, mc::fmt("iterating over [%d,%d) of direction %d visits %d cells, "
                          "expected %d", a[dir], b[dir], dir, int(seen.size()), int(want.size())));
      }
  // cubes and rectangles around points
  std::vector<A3d> pts;
  for (double fx : {-0.6, 0.13, 0.52, 0.97, 1.4})
    for (double fy : {-0.2, 0.49, 1.1})
      for (double fz : {0.02, 0.71, 1.8})
        pts.push_back({g.o[0] + fx * g.l[0], g.o[1] + fy * g.l[1], g.o[2] + fz * g.l[2]});
  std::vector<A3d> radii;
  for (double r : {1e-3, 0.37, 0.81, 1.9, 4.3}) radii.push_back({r, r, r});
  for (A3d r : {A3d{0.41, 1.3, 2.7}, A3d{2.2, 0.09, 0.6}, A3d{0.7, 3.1, 0.02}, A3d{0., 1., 1.}})
    radii.push_back(r);
  for (auto &p : pts)
    for (auto &r : radii) {
      if (!mc::thorough() && 8 * r[0] * r[1] * r[2] > 1500 * g.d(0) * g.d(1) * g.d(2)) continue;
      std::map<A3i, int> want, maybe;
      A3i lo, hi;
      for (int i = 0; i < 3; i++) {
        lo[i] = g.per ? -40 * g.n[i] : 0;
        hi[i] = g.per ? 41 * g.n[i] : g.n[i];
        // indices of interest only
        lo[i] = std::max(lo[i], int(std::floor((p[i] - r[i] - g.o[i]) / g.d(i))) - 2);
        hi[i] = std::min(hi[i], int(std::ceil((p[i] + r[i] - g.o[i]) / g.d(i))) + 2);
      }
      for (int z = lo[2]; z < hi[2]; z++)
        for (int y = lo[1]; y < hi[1]; y++)
          for (int x = lo[0]; x < hi[0]; x++) {
            const int k[] = {x, y, z};
            int inside = 2;
            for (int i = 0; i < 3; i++) {
              const double dist = std::fabs(g.centre(i, k[i]) - p[i]) - r[i];
              if (dist > 1e-9) inside = 0;
              else if (dist > -1e-9) inside = std::min(inside, 1);
            }
            if (inside == 2) want[{x, y, z}] = 1;
            if (inside >= 1) maybe[{x, y, z}] = 1;
          }
      const bool cube = r[0] == r[1] && r[1] == r[2];
      for (int way = cube ? 0 : 1; way < 2; way++) {
        std::map<A3i, int> seen;
        auto f = [&](double &v, int x, int y, int z) {
          const int i = g.index({x, y, z});
          if (&v != &lat[i]) fail(g, "wrong node in the neighbourhood of a point");
          seen[{x, y, z}]++;
        };
        mc::transition();
        if (way == 0)
          lat.iterate_in_cube(ThreeVector(p[0], p[1], p[2]), r[0], f);
        else
          lat.iterate_in_rectangle(ThreeVector(p[0], p[1], p[2]), r, f);
        mc::eval();
        bool ok = true;
        for (auto &s : seen) ok &= s.second == 1 && maybe.count(s.first);
        for (auto &w : want) ok &= seen.count(w.first);
        if (!ok)
          fail(g, mc::fmt("%s of (%g,%g,%g) around (%g,%g,%g): %d cells visited, "
                          "expected %d to %d", way ? "rectangle" : "cube", r[0], r[1], r[2],
                          p[0], p[1], p[2], int(seen.size()), int(want.size()),
                          int(maybe.size())));
      }
      if (cube) {
        double integral = 0, w = 0, vol = g.d(0) * g.d(1) * g.d(2);
        lat.integrate_volume<double>(
            integral,
            [](ThreeVector pos, double &v, ThreeVector point) {
              return v * (1. + (pos - point).sqr());
            },
            r[0], ThreeVector(p[0], p[1], p[2]));
        if (want.size() == maybe.size()) {
          for (auto &m : want) {
            double d2 = 0;
            for (int i = 0; i < 3; i++) d2 += std::pow(g.centre(i, m.first[i]) - p[i], 2);
            w += (g.index(m.first) + 1) * (1. + d2) * vol;
          }
          if (!mc::rel_close(integral, w, 1e-9, 1e-9))
            fail(g, mc::fmt("volume integral %.12g, expected %.12g", integral, w));
        }
      }
    }
}

double value(int i, int salt) { return std::sin(0.7 * i + salt) * 5 + i % 3; }

void gradients(const Geo &g) {
  Lat lat = make(g);
  RectangularLattice<ThreeVector> grad(g.l, g.n, g.o, g.per, LatticeUpdate::AtOutput);
  RectangularLattice<FourVector> j(g.l, g.n, g.o, g.per, LatticeUpdate::AtOutput), old(j);
  RectangularLattice<std::array<FourVector, 4>> g4(g.l, g.n, g.o, g.per,
                                                   LatticeUpdate::AtOutput);
  const int N = g.n[0] * g.n[1] * g.n[2];
  const bool small = g.n[0] < 2 || g.n[1] < 2 || g.n[2] < 2;
  const double dt = 0.2;
  for (int i = 0; i < N; i++) {
    lat[i] = value(i, 0);
    j[i] = FourVector(value(i, 1), value(i, 2), value(i, 3), value(i, 4));
    old[i] = FourVector(value(i, 5), value(i, 6), value(i, 7), value(i, 8));
  }
  int thrown = 0;
  mc::transition(2);
  try {
    lat.compute_gradient_lattice(grad);
  } catch (const std::runtime_error &) {
    thrown++;
  }
  try {
    j.compute_four_gradient_lattice(old, dt, g4);
  } catch (const std::runtime_error &) {
    thrown++;
  }
  if (thrown != (small ? 2 : 0)) fail(g, "derivatives on too small lattices");
  if (small) return;
  for (int z = 0; z < g.n[2]; z++)
    for (int y = 0; y < g.n[1]; y++)
      for (int x = 0; x < g.n[0]; x++) {
        const A3i k = {x, y, z};
        const int c = g.index(k);
        mc::eval();
        for (int i = 0; i < 3; i++) {
          A3i a = k, b = k;
          a[i]--, b[i]++;
          double h = 2;
          if (!g.inside(a)) a = k, h = 1;
          if (!g.inside(b)) b = k, h = 1;
          const int ia = g.index(a), ib = g.index(b);
          auto der = [&](int salt) {
            return (value(ib, salt) - value(ia, salt)) / (h * g.d(i));
          };
          if (!mc::close_to(grad[c][i], der(0), 1e-9))
            fail(g, mc::fmt("derivative %d at (%d,%d,%d) is %g, expected %g", i, x, y, z,
                            grad[c][i], der(0)));
          for (int m = 0; m < 4; m++)
            if (!mc::close_to(g4[c][1 + i][m], der(1 + m), 1e-9))
              fail(g, mc::fmt("derivative %d of component %d at (%d,%d,%d) is %g, expected %g",
                              i, m, x, y, z, g4[c][1 + i][m], der(1 + m)));
        }
        for (int m = 0; m < 4; m++)
          if (!mc::close_to(g4[c][0][m], (value(c, 1 + m) - value(c, 5 + m)) / dt, 1e-9))
            fail(g, "time derivative is wrong");
      }
  // lattices which do not fit are refused
  for (int what = 0; what < 4; what++) {
    Geo o = g;
    if (what == 0) o.n[2]++;
    if (what == 1) o.l[1] *= 1.5;
    if (what == 2) o.o[0] += 0.5;
    if (what == 3) o.per = !o.per;
    RectangularLattice<ThreeVector> bad(o.l, o.n, o.o, o.per, LatticeUpdate::AtOutput);
    RectangularLattice<std::array<FourVector, 4>> bad4(o.l, o.n, o.o, o.per,
                                                       LatticeUpdate::AtOutput);
    int refused = 0;
    try {
      lat.compute_gradient_lattice(bad);
    } catch (const std::invalid_argument &) {
      refused++;
    }
    try {
      j.compute_four_gradient_lattice(old, dt, bad4);
    } catch (const std::invalid_argument &) {
      refused++;
    }
    if (refused != 2 || lat.identical_to_lattice(&bad) || bad.identical_to_lattice(&lat))
      fail(g, mc::fmt("a lattice that differs (%d) is taken as identical", what));
  }
  if (!lat.identical_to_lattice(&grad)) fail(g, "equal lattices are not identical");
}

// all histories of changes up to a depth
void histories(const Geo &start) {
  struct St {
    Geo g;
    std::vector<double> v;
  };
  const int depth = mc::thorough() ? 5 : 4, kOps = 11;
  uint64_t n = 1;
  for (int i = 0; i < depth; i++) n *= kOps;
  for (uint64_t code = 0; code < n && !mc::too_many(); code++) {
    Lat lat = make(start);
    St m{start, std::vector<double>(lat.size(), 0.)};
    std::string log;
    uint64_t c = code;
    for (int d = 0; d < depth; d++, c /= kOps) {
      const int op = c % kOps;
      log += mc::fmt("%d ", op);
      mc::transition();
      std::optional<A3d> nl, no;
      std::optional<A3i> nn;
      bool resize = true;
      switch (op) {
        case 0:
          for (size_t i = 0; i < lat.size(); i++) lat[i] = m.v[i] = 1.5 * d + i;
          resize = false;
          break;
        case 1:
          lat.assign_value(int(lat.size()) - 1, 3.25 + d);
          m.v.back() = 3.25 + d;
          resize = false;
          break;
        case 2:
          lat.reset();
          m.v.assign(m.v.size(), 0.);
          resize = false;
          break;
        case 3: {
          int i = 0;
          for (auto &x : lat) x = m.v[i] = -i - d, i++;
          resize = false;
          break;
        }
        case 4: {
          Lat copy(lat);
          if (d % 2) copy[0] = 99, resize = false;
          for (size_t i = d % 2; i < lat.size(); i++)
            if (copy[i] != lat[i]) mc::viol("history " + log, "a copy differs");
          copy.reset();
          resize = false;
          break;
        }
        case 5: nl = A3d{2. + d, 3., 4.}; break;
        case 6: no = A3d{-1. * d, 0.5, 2.}; break;
        case 7: nn = A3i{2 + d % 2, 3, 1 + d % 3}; break;
        case 8: nl = A3d{5., 1., 2.}, nn = A3i{1, 1 + d % 2, 2}; break;
        case 9: nl = A3d{6., 6., 6.}, no = A3d{-3., -3., -3.}, nn = A3i{3, 3, 3}; break;
        default: {
          bool refused = false;
          try {
            lat.reset_and_resize(nl, no, nn);
          } catch (const std::invalid_argument &) {
            refused = true;
          }
          if (!refused) mc::viol("history " + log, "no new sizes, but no error");
          resize = false;
        }
      }
      if (resize) {
        lat.reset_and_resize(nl, no, nn);
        if (nl) m.g.l = *nl;
        if (no) m.g.o = *no;
        if (nn) m.g.n = *nn;
        m.v.assign(m.g.n[0] * m.g.n[1] * m.g.n[2], 0.);
      }
      bool ok = lat.size() == m.v.size() && lat.n_cells() == m.g.n &&
                lat.origin() == m.g.o && lat.lattice_sizes() == m.g.l;
      for (size_t i = 0; ok && i < m.v.size(); i++) ok &= lat[i] == m.v[i];
      for (int i = 0; ok && i < 3; i++)
        ok &= mc::rel_close(lat.cell_sizes()[i], m.g.d(i), 1e-14);
      mc::eval();
      if (!ok) {
        mc::viol("history " + start.str() + " " + log,
                 mc::fmt("after operations %s: %d cells, expected %d, or other contents "
                         "or geometry", log.c_str(), int(lat.size()), int(m.v.size())));
        break;
      }
      A3i last = {m.g.n[0] - 1, m.g.n[1] - 1, m.g.n[2] - 1};
      double v;
      if (!lat.value_at(ThreeVector(m.g.centre(0, last[0]), m.g.centre(1, last[1]),
                                    m.g.centre(2, last[2])), v) || v != m.v.back())
        mc::viol("history " + start.str() + " " + log, "the last cell is not found");
      double integral = 0;
      lat.integrate_volume<double>(
          integral, [](ThreeVector, double &x, ThreeVector) { return x; },
          1e-6 + m.g.d(0) / 4 + m.g.d(1) / 4 + m.g.d(2) / 4,
          ThreeVector(m.g.centre(0, 0), m.g.centre(1, 0), m.g.centre(2, 0)));
      (void)integral;
      mc::state(mc::fmt("%zu", m.v.size()) + m.g.str() + mc::fmt("%g", m.v[0]));
    }
    mc::trace();
  }
}

void refused() {
  const A3d o = {0, 0, 0};
  auto bad = [&](A3d l, A3i n) {
    mc::eval();
    try {
      Lat lat(l, n, o, false, LatticeUpdate::AtOutput);
    } catch (const std::exception &) {
      return;
    }
    mc::viol(mc::fmt("refused (%g,%g,%g) (%d,%d,%d)", l[0], l[1], l[2], n[0], n[1], n[2]),
             "an impossible lattice is not refused with an error");
  };
  for (int i = 0; i < 3; i++) {
    A3d l = {1, 1, 1};
    A3i n = {2, 2, 2};
    for (int k : {0, -1, -7}) {
      n[i] = k;
      bad(l, n);
    }
    n[i] = 2;
    l[i] = -1;
    bad(l, n);
  }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  std::vector<Geo> all;
  const int top = mc::thorough() ? 5 : 4;
  const A3d sizes[] = {{1., 1., 1.}, {2., 3., 1.2}, {5., 0.8, 3.3}};
  const A3d origins[] = {{0, 0, 0}, {-1., 0.25, 2.}, {-2.5, -4., -1.7}};
  for (int a = 1; a <= top; a++)
    for (int b = 1; b <= top; b++)
      for (int c = 1; c <= top; c++)
        for (int per = 0; per < 2; per++)
          for (auto &l : sizes)
            for (auto &o : origins) all.push_back({l, o, {a, b, c}, per == 1});
  uint64_t job = 0;
  for (auto &g : all) {
    if (!mc::mine(job++) || mc::too_many()) continue;
    mc::cur(g.str());
    geometry(g);
    iterations(g);
    gradients(g);
    mc::trace();
  }
  for (Geo g : {Geo{{1, 2, 3}, {0, 0, 0}, {2, 2, 2}, false}, Geo{{1, 2, 3}, {-1, 0, 1}, {1, 2, 3}, true},
                Geo{{4, 4, 4}, {0, 0, 0}, {3, 1, 2}, false}})
    if (mc::mine(job++)) {
      mc::cur("histories " + g.str());
      histories(g);
    }
  if (mc::mine(job++)) refused();
  mc::sample("last lattice: " + all.back().str());
  return mc::finish();
}
