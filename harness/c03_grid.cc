// C03: the neighbour search presents every close pair, in every periodic
// image in which it is close, exactly once. All grid shapes up to a size,
// dense and all sparse placements including cell boundaries.
#include <algorithm>
#include <array>

#include "smash/grid.h"
#include "smash_common.h"

using namespace smash;

namespace {
using P3 = std::array<double, 3>;

struct Cfg {
  P3 min, len;
  double cell;
  CellNumberLimitation limit;
  CellSizeStrategy strat;
  bool periodic, include_unformed, bounds_given;
  std::string log;
};

struct Body {
  P3 x;
  /// 0 formed, 1 forms after the step, 2 forms in the step
  int form;
};

void fail(const Cfg &c, const std::string &what) {
  mc::viol("grid " + c.log, what + "\nconfiguration: " + c.log);
}

template <GridOptions O>
std::unique_ptr<Grid<O>> make(const Cfg &c, const Particles &p, double dt) {
  if (c.bounds_given)
    return std::make_unique<Grid<O>>(std::make_pair(c.min, c.len), p, c.cell,
                                     dt, c.limit, c.include_unformed, c.strat);
  if constexpr (O == GridOptions::Normal)
    return std::make_unique<Grid<O>>(p, c.cell, dt, c.limit,
                                     c.include_unformed, c.strat);
  throw std::logic_error("bounds needed");
}

template <GridOptions O>
void run(const Cfg &c, const std::vector<Body> &bodies) {
  mc::cur(c.log);
  const double dt = 0.1;
  Particles parts;
  const size_t n = bodies.size();
  for (size_t i = 0; i < n; i++) {
    ParticleData p = mc::particle(mc::pdg("211"), 0.138, 0, 0, 0.1, 0,
                                  bodies[i].x[0], bodies[i].x[1],
                                  bodies[i].x[2]);
    p.set_formation_time(0.);
    p.set_cross_section_scaling_factor(1.);
    if (bodies[i].form == 2) {
      if (i % 2)
        p.set_formation_time(0.06);
      else
        p.set_slow_formation_times(0.04, 0.08);
      p.set_cross_section_scaling_factor(0.);
    }
    if (bodies[i].form == 1) {
      p.set_slow_formation_times(5., 6.);
      p.set_cross_section_scaling_factor(0.);
    }
    if (parts.insert(p).id() != static_cast<int>(i))
      throw std::logic_error("ids are not consecutive");
  }
  std::unique_ptr<Grid<O>> grid;
  try {
    grid = make<O>(c, parts, dt);
  } catch (const std::exception &e) {
    return fail(c, std::string("the grid could not be constructed: ") +
                       e.what());
  }
  std::vector<int> in_cell(n, 0);
  // presented displacement (image) of every pair
  std::map<std::pair<int, int>, std::vector<std::array<int, 3>>> images;
  uint64_t cells = 0, presented = 0;
  bool ok = true;
  auto original = [&](const ParticleData &p, std::array<int, 3> &img) {
    const int id = p.id();
    if (id < 0 || id >= static_cast<int>(n)) {
      ok = false;
      fail(c, mc::fmt("unknown particle %d presented", id));
      return false;
    }
    for (int k = 0; k < 3; k++) {
      const double d = p.position()[k + 1] - bodies[id].x[k];
      const double m = c.periodic ? std::round(d / c.len[k]) : 0;
      img[k] = static_cast<int>(m);
      if (std::fabs(d - m * c.len[k]) > 1e-9 * (1 + c.len[k]) ||
          std::abs(img[k]) > 1) {
        ok = false;
        fail(c, mc::fmt("particle %d is presented displaced by %g along axis "
                        "%d", id, d, k));
        return false;
      }
    }
    return true;
  };
  auto pair = [&](const ParticleData &a, const ParticleData &b) {
    std::array<int, 3> ia, ib, d;
    if (!ok || !original(a, ia) || !original(b, ib))
      return;
    presented++;
    const bool swap = a.id() > b.id();
    for (int k = 0; k < 3; k++)
      d[k] = swap ? ib[k] - ia[k] : ia[k] - ib[k];
    auto &v = images[swap ? std::make_pair(b.id(), a.id())
                          : std::make_pair(a.id(), b.id())];
    if (a.id() == b.id()) {
      ok = false;
      return fail(c, mc::fmt("particle %d is paired with itself", a.id()));
    }
    if (std::find(v.begin(), v.end(), d) != v.end()) {
      ok = false;
      return fail(c, mc::fmt("pair %d-%d is presented twice in image "
                             "(%d,%d,%d)", a.id(), b.id(), d[0], d[1], d[2]));
    }
    v.push_back(d);
  };
  const bool dense = n > 40;
  // for dense configurations count pairs in a flat table
  std::vector<uint8_t> flat(dense ? n * n : 0, 0);
  auto pair_dense = [&](const ParticleData &a, const ParticleData &b) {
    std::array<int, 3> ia, ib;
    if (!ok || !original(a, ia) || !original(b, ib))
      return;
    presented++;
    const int i = a.id(), j = b.id();
    const P3 &x = bodies[i].x, &y = bodies[j].x;
    bool close = true;
    int code = 0;
    for (int k = 0; k < 3; k++) {
      const int m = ia[k] - ib[k];
      close = close &&
              std::fabs(x[k] + m * c.len[k] - y[k]) < c.cell * (1 - 1e-9);
      code = code * 3 + m + 1;
    }
    if (i == j) {
      ok = false;
      return fail(c, mc::fmt("particle %d is paired with itself", i));
    }
    if (close) {
      uint8_t &f = flat[std::min(i, j) * n + std::max(i, j)];
      if (++f > 1 && !c.periodic) {
        ok = false;
        fail(c, mc::fmt("pair %d-%d is presented twice", i, j));
      }
    }
  };
  grid->iterate_cells(
      [&](const ParticleList &s) {
        cells++;
        for (size_t i = 0; i < s.size() && ok; i++) {
          std::array<int, 3> img;
          if (!original(s[i], img))
            return;
          if (img != std::array<int, 3>{0, 0, 0}) {
            ok = false;
            return fail(c, "a search cell contains a displaced particle");
          }
          in_cell[s[i].id()]++;
          for (size_t j = 0; j < i; j++)
            dense ? pair_dense(s[i], s[j]) : pair(s[i], s[j]);
        }
      },
      [&](const ParticleList &s, const ParticleList &nb) {
        for (const auto &a : s)
          for (const auto &b : nb)
            if (ok)
              dense ? pair_dense(a, b) : pair(a, b);
      });
  mc::transition(presented);
  if (!ok)
    return;
  for (size_t i = 0; i < n; i++) {
    const bool must = c.include_unformed || bodies[i].form != 1;
    if (in_cell[i] > 1 || (must && in_cell[i] != 1))
      return fail(c, mc::fmt("particle %zu is in %d cells", i, in_cell[i]));
  }
  for (size_t i = 0; i < n; i++)
    for (size_t j = i + 1; j < n; j++) {
      if ((bodies[i].form == 1 || bodies[j].form == 1) && !c.include_unformed)
        continue;
      // every image in which the pair is closer than the search length
      int want = 0;
      for (int a = c.periodic ? -1 : 0; a <= (c.periodic ? 1 : 0); a++)
        for (int b = c.periodic ? -1 : 0; b <= (c.periodic ? 1 : 0); b++)
          for (int e = c.periodic ? -1 : 0; e <= (c.periodic ? 1 : 0); e++) {
            const int m[3] = {a, b, e};
            bool close = true;
            for (int k = 0; k < 3; k++)
              close = close && std::fabs(bodies[i].x[k] + m[k] * c.len[k] -
                                         bodies[j].x[k]) <
                                   c.cell * (1 - 1e-9);
            if (!close)
              continue;
            want++;
            if (!dense) {
              auto it = images.find({static_cast<int>(i),
                                     static_cast<int>(j)});
              if (it == images.end() ||
                  std::find(it->second.begin(), it->second.end(),
                            std::array<int, 3>{a, b, e}) == it->second.end())
                return fail(
                    c, mc::fmt("pair (%g,%g,%g)-(%g,%g,%g) is close in image "
                               "(%d,%d,%d) but not presented",
                               bodies[i].x[0], bodies[i].x[1], bodies[i].x[2],
                               bodies[j].x[0], bodies[j].x[1], bodies[j].x[2],
                               a, b, e));
            }
          }
      if (dense && want != flat[i * n + j])
        return fail(c, mc::fmt("pair (%g,%g,%g)-(%g,%g,%g) is close in %d "
                               "images and presented in %d of them",
                               bodies[i].x[0], bodies[i].x[1], bodies[i].x[2],
                               bodies[j].x[0], bodies[j].x[1], bodies[j].x[2],
                               want, flat[i * n + j]));
    }
  const double vol = c.len[0] * c.len[1] * c.len[2];
  if (c.bounds_given &&
      !mc::rel_close(grid->cell_volume() * cells, vol, 1e-9, 1e-12))
    return fail(c, mc::fmt("%llu cells of volume %g do not fill the volume %g",
                           (unsigned long long)cells, grid->cell_volume(),
                           vol));
  mc::trace();
}

void dispatch(const Cfg &c, const std::vector<Body> &b) {
  if (c.periodic)
    run<GridOptions::PeriodicBoundaries>(c, b);
  else
    run<GridOptions::Normal>(c, b);
  mc::state(c.log);
}
std::string name(const Cfg &c) {
  return mc::fmt(
      "%s cell=%g len=(%.9g,%.9g,%.9g) min=(%g,%g,%g) limit=%d strategy=%s "
      "unformed=%d",
      c.periodic ? "periodic" : "normal", c.cell, c.len[0], c.len[1], c.len[2],
      c.min[0], c.min[1], c.min[2],
      c.limit == CellNumberLimitation::ParticleNumber,
      c.strat == CellSizeStrategy::Largest ? "largest" : "optimal",
      c.include_unformed);
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_shipped_particles();
  uint64_t job = 0;
  const int nmax = mc::bound(4, 6);
  // A: every shape of nx*ny*nz cells, particles at the centre and close to
  // both edges of every cell
  for (bool periodic : {false, true})
    for (int nx = 1; nx <= nmax; nx++)
      for (int ny = 1; ny <= nmax; ny++)
        for (int nz = 1; nz <= nmax; nz++)
          for (double frac : {0.0, 0.4})  // length = (n + frac) cells
            for (double cell : {1.0, 0.7, 2.5})
              for (double mn : {0.0, -3.3})
                for (int limit = 0; limit < 2; limit++)
                  for (int strat = 0; strat < 2; strat++) {
                    if (periodic && (mn != 0. || nx < 2 || ny < 2 || nz < 2))
                      continue;
                    if (strat == 1 && limit == 1)
                      continue;
                    if (!mc::mine(job++) || mc::too_many())
                      continue;
                    Cfg c;
                    c.periodic = periodic;
                    c.cell = cell;
                    c.min = {mn, mn, mn};
                    c.len = {(nx + frac) * cell, (ny + frac) * cell,
                             (nz + frac) * cell};
                    c.limit = limit ? CellNumberLimitation::ParticleNumber
                                    : CellNumberLimitation::None;
                    c.strat = strat ? CellSizeStrategy::Largest
                                    : CellSizeStrategy::Optimal;
                    c.include_unformed = nx % 2;
                    c.bounds_given = true;
                    c.log = "dense " + name(c);
                    if (strat == 1 && periodic &&
                        (nx > 2 || ny > 2 || nz > 2))
                      // largest: 2x2x2 cells of any size
                      c.cell = std::min({c.len[0], c.len[1], c.len[2]}) / 2;
                    std::vector<Body> b;
                    std::array<std::vector<double>, 3> xs;
                    const int cnt[3] = {nx, ny, nz};
                    for (int k = 0; k < 3; k++)
                      for (int i = 0; i < cnt[k]; i++) {
                        const double w = c.len[k] / cnt[k];
                        xs[k].push_back(mn + w * i +
                                        (i % 2 ? 1e-13 : 0.));
                        if (cnt[k] < 4)
                          xs[k].push_back(mn + w * (i + 0.5));
                        if (k == 0 || cnt[k] < 3)
                          xs[k].push_back(mn + w * (i + 1) - 1e-7);
                      }
                    if (!periodic)
                      for (int k = 0; k < 3; k++) {
                        // the extent is the difference of the extreme
                        // positions, as the grid itself determines it
                        const double mx = mn + c.len[k];
                        xs[k].push_back(mx);
                        c.len[k] = mx - mn;
                        for (double &x : xs[k])
                          x = std::min(x, mx);
                      }
                    int u = 0;
                    for (double x : xs[0])
                      for (double y : xs[1])
                        for (double z : xs[2])
                          b.push_back({{x, y, z}, ++u % 7 == 0 ? 1 : u % 7 == 3 ? 2 : 0});
                    mc::sample(c.log + mc::fmt(" %zu particles", b.size()));
                    dispatch(c, b);
                  }
  // B: all placements of three particles on a mesh of positions, without
  // given bounds (normal) and in a periodic box
  const std::vector<double> pos = {0., 0.999999, 1., 1.5, 2.4999, 3.2};
  std::vector<P3> site;
  for (double x : pos)
    for (double y : {0., 1., 2.5})
      for (double z : {0., 1.2, 3.1})
        site.push_back({x, y, z});
  for (size_t i = 0; i < site.size(); i++)
    for (size_t j = i; j < site.size(); j++) {
      if (!mc::mine(job++) || mc::too_many())
        continue;
      for (size_t k = j; k < site.size(); k++)
        for (int mode = 0; mode < mc::bound(3, 5); mode++) {
          Cfg c;
          c.periodic = mode == 2 || mode == 4;
          c.cell = mode == 4 ? 0.8 : mode == 3 ? 0.5 : 1.0;
          c.min = {0., 0., 0.};
          c.len = {3.3, 3.2, 3.5};
          c.limit = mode == 1 ? CellNumberLimitation::ParticleNumber
                              : CellNumberLimitation::None;
          c.strat = CellSizeStrategy::Optimal;
          c.include_unformed = false;
          c.bounds_given = c.periodic;
          c.log = mc::fmt("sparse mode=%d sites %zu,%zu,%zu", mode, i, j, k);
          dispatch(c, {{site[i], (i + k) % 3 == 0 ? 2 : 0},
                       {site[j], (j + k) % 4 == 0 ? 2 : 0},
                       {site[k], k % 5 == 0 ? 2 : 0}});
        }
    }
  return mc::finish();
}
