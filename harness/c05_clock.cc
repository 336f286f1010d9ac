// C05: every sequence of clock operations up to a depth over grids of start
// time, step and end time, against an exact integer-arithmetic model.
#include <limits>
#include <algorithm>

#include "smash/clock.h"
#include "smash_common.h"

using namespace smash;

namespace {
using I = int64_t;
I micro(double x) { return static_cast<I>(std::llround(x * 1e6)); }
I floor_mult(I a, I m) {
  I r = a % m;
  if (r < 0)
    r += m;
  return a - r;
}

struct Ref {  // micro-fm
  I base, n, dt, end;
  I raw() const { return base + n * dt; }
  I cur() const { return std::min(raw(), end); }
  I next() const { return std::min(raw() + dt, end); }
  I step() const {
    return raw() > end ? 0 : std::min(dt, end - raw());
  }
};
bool eq(double t, I ref) { return std::fabs(t * 1e6 - ref) < 0.05; }

void fail(const std::string &log, const std::string &what) {
  mc::viol("clock " + log, what + "\nhistory: " + log);
}

bool compare(const UniformClock &c, const Ref &r, const std::string &log) {
  if (!eq(c.current_time(), r.cur())) {
    fail(log, mc::fmt("current_time %.9g, expected %lld e-6",
                      c.current_time(), (long long)r.cur()));
    return false;
  }
  if (!eq(c.next_time(), r.next())) {
    fail(log, mc::fmt("next_time %.9g, expected %lld e-6", c.next_time(),
                      (long long)r.next()));
    return false;
  }
  if (!eq(c.timestep_duration(), r.step())) {
    fail(log, mc::fmt("timestep_duration %.9g, expected %lld e-6",
                      c.timestep_duration(), (long long)r.step()));
    return false;
  }
  if (r.raw() <= r.end &&
      !eq(c.current_time() + c.timestep_duration(), r.next())) {
    fail(log, "a step does not end where the next one starts");
    return false;
  }
  // comparisons (the clock has passed the end if it is strictly larger)
  const double e = r.end * 1e-6, q = (r.raw() + 5) * 1e-6,
               s = (r.raw() - 5) * 1e-6;
  if ((c < e) != (r.raw() < r.end) && std::llabs(r.raw() - r.end) > 1) {
    fail(log, "comparison with the end time is wrong");
    return false;
  }
  if (!(c < q) || !(c > s) || (c > q) || (c < s)) {
    fail(log, "comparison with a time is wrong");
    return false;
  }
  return true;
}

const std::vector<double> kStep = {0.1,  0.3,    0.001, 0.7,   1.0,
                                   0.04, 0.0123, 2.5,   1e-5};
const std::vector<double> kStart = {0.,  0.3,  -0.3, -1.,    0.1, 5.7,
                                    1.1, -2.5, 0.6,  33.333, -0.123456};
const std::vector<double> kLen = {0.05, 0.1, 0.3, 0.65, 1., 2.5, 20.000001};

void ops_run(double start, double dt, double len) {
  const double end = micro(start + len) / 1e6;
  constexpr int kOps = 10;
  const int depth = mc::bound(4, 6);
  std::vector<int> ops;
  std::function<void()> rec = [&]() {
    UniformClock c(start, dt, end);
    Ref r{micro(start), 0, micro(dt), micro(end)};
    std::string log = mc::fmt("start=%g dt=%g end=%.9g:", start, dt, end);
    mc::cur(log);
    if (!compare(c, r, log))
      return;
    for (int op : ops) {
      mc::transition();
      switch (op) {
        case 0:
          ++c;
          r.n++;
          log += " ++";
          break;
        case 1:
          c += I{3};
          r.n += 3;
          log += " +=3";
          break;
        case 2:
          c += 0.25;
          r.base += 250000;
          log += " +=0.25";
          break;
        case 3:
          c.set_timestep_duration(0.2);
          r.base += r.n * r.dt;
          r.n = 0;
          r.dt = 200000;
          log += " dt:=0.2";
          break;
        case 4:
        case 5: {
          const double t = op == 4 ? start : start + 0.6;
          c.reset(t, false);
          r.base = micro(t);
          r.n = 0;
          log += mc::fmt(" reset(%.9g)", t);
          break;
        }
        case 6:
        case 7: {
          const double t = op == 6 ? start : start + 0.6;
          c.reset(t, true);
          r.base = floor_mult(micro(t), r.dt);
          r.n = 0;
          log += mc::fmt(" reset-output(%.9g)", t);
          break;
        }
        case 8:
          c.remove_times_in_past(start + 1);
          log += " remove-past";
          break;
        case 9: {
          bool threw = false;
          try {
            c += -0.1;
          } catch (const std::range_error &) {
            threw = true;
          }
          if (!threw)
            fail(log, "the clock was turned back without an error");
          log += " back";
          break;
        }
      }
      if (!compare(c, r, log))
        return;
    }
    mc::trace();
    mc::state(mc::fmt("%lld %lld %lld", (long long)r.raw(), (long long)r.dt,
                      (long long)r.end));
    if (ops.size() == 3 && start == -0.3)
      mc::sample(log + mc::fmt(" -> t=%g", c.current_time()));
    if (static_cast<int>(ops.size()) < depth) {
      for (int o = 0; o < kOps; o++) {
        ops.push_back(o);
        rec();
        ops.pop_back();
      }
    }
  };
  rec();
}

/// a complete run: the steps tile [start, end]
void loop_run(double start, double dt, double len) {
  const double end = micro(start + len) / 1e6;
  const std::string log = mc::fmt("loop start=%g dt=%g end=%.9g", start, dt,
                                  end);
  mc::cur(log);
  UniformClock c(start, dt, end);
  const I s = micro(start), d = micro(dt), e = micro(end);
  I n = 0, t = s;
  while (c < end) {
    mc::transition();
    if (!eq(c.current_time(), t) || !eq(c.next_time(), std::min(t + d, e)) ||
        !eq(c.timestep_duration(), std::min(d, e - t)))
      return fail(log, mc::fmt("step %lld starts at %.9g, ends at %.9g, "
                               "expected [%lld, %lld] e-6", (long long)n,
                               c.current_time(), c.next_time(), (long long)t,
                               (long long)std::min(t + d, e)));
    t += d;
    n++;
    ++c;
    if (n > (e - s) / d + 3)
      return fail(log, "too many steps");
  }
  if (n != (e - s + d - 1) / d)
    return fail(log, mc::fmt("%lld steps were made", (long long)n));
  if (!eq(c.current_time(), e))
    return fail(log, "the last step does not end at the end time");
  mc::trace();
}

/// output times in the order they are visited by a run of the lab clock
void output_run(double start, double dt, double len, double odt) {
  const double end = micro(start + len) / 1e6;
  const std::string log = mc::fmt("output start=%g dt=%g end=%.9g interval=%g",
                                  start, dt, end, odt);
  mc::cur(log);
  UniformClock out(0., odt, std::max(end, 1.));
  // the state left by an earlier event must not matter
  for (int i = 0; i < 3; i++)
    ++out;
  UniformClock lab(start, dt, end);
  out.reset(start, true);
  out.remove_times_in_past(start);
  std::vector<I> got;
  while (lab < end) {
    while (out.next_time() < lab.next_time()) {
      got.push_back(micro(out.next_time()));
      ++out;
      mc::transition();
      if (got.size() > 3000000)
        return fail(log, "endless output");
    }
    ++lab;
  }
  std::vector<I> want;
  for (I t = floor_mult(micro(start), micro(odt)) + micro(odt); t < micro(end);
       t += micro(odt))
    want.push_back(t);
  if (got != want)
    return fail(log, mc::fmt("%zu output times, expected %zu (first %lld, "
                             "expected %lld; last %lld, expected %lld)",
                             got.size(), want.size(),
                             got.empty() ? -1ll : (long long)got.front(),
                             want.empty() ? -1ll : (long long)want.front(),
                             got.empty() ? -1ll : (long long)got.back(),
                             want.empty() ? -1ll : (long long)want.back()));
  ++out;
  if (!eq(out.current_time(), micro(end)) && end >= 1.)
    fail(log, mc::fmt("final output time %.9g", out.current_time()));
  mc::trace();
}

void custom_run() {
  const std::vector<double> pool = {-1.5, 0., 0.3, 1., 1., 2.25};
  std::vector<int> idx;
  // every ordered selection of up to 4 of the pool, every start time
  std::function<void()> rec = [&]() {
    for (double start : {-2., -1.5, 0., 0.3, 0.5, 1., 3.}) {
      std::vector<double> times;
      for (int i : idx)
        times.push_back(pool[i]);
      std::string log = mc::fmt("custom start=%g times", start);
      for (double t : times)
        log += mc::fmt(" %g", t);
      mc::cur(log);
      std::vector<double> want = times;
      std::sort(want.begin(), want.end());
      want.erase(std::remove_if(want.begin(), want.end(),
                                [&](double t) { return t <= start; }),
                 want.end());
      CustomClock c(times);
      for (int events = 0; events < 2; events++) {
        c.reset(start, true);
        c.remove_times_in_past(start);
        if (c.current_time() != start)
          fail(log, "time before the first output is not the start time");
        for (size_t i = 0; i < want.size(); i++) {
          mc::transition();
          const double dt = c.timestep_duration();
          if (c.next_time() != want[i] ||
              dt != want[i] - (i ? want[i - 1] : start))
            return fail(log, mc::fmt("output %zu is announced at %g, expected "
                                     "%g", i, c.next_time(), want[i]));
          ++c;
          if (c.current_time() != want[i])
            return fail(log, mc::fmt("output %zu happens at %g, expected %g",
                                     i, c.current_time(), want[i]));
        }
        bool threw = false;
        try {
          c.next_time();
        } catch (const std::out_of_range &) {
          threw = true;
        }
        if (!threw)
          fail(log, "more output times than were given");
      }
      mc::trace();
      mc::state(log);
    }
    if (idx.size() < 4)
      for (size_t i = 0; i < pool.size(); i++)
        if (std::find(idx.begin(), idx.end(), i) == idx.end()) {
          idx.push_back(i);
          rec();
          idx.pop_back();
        }
  };
  rec();
}

void overflow_run() {
  const I m = std::numeric_limits<I>::max();
  for (I k : {I{1}, I{2}, I{3}, I{10}})
    for (I pre = 0; pre < 4; pre++) {
      UniformClock c(0., 1., 300.);
      for (I i = 0; i < pre; i++)
        ++c;
      const bool want = pre >= m - (m - k);
      bool threw = false;
      try {
        c += m - k;
      } catch (const std::overflow_error &) {
        threw = true;
      }
      mc::transition();
      if (threw != want)
        fail(mc::fmt("overflow %lld %lld", (long long)k, (long long)pre),
             "overflow of the tick counter is not handled");
    }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  uint64_t n = 0;
  for (double start : kStart)
    for (double len : kLen)
      for (double dt : kStep) {
        if (!mc::mine(n++))
          continue;
        const bool small = len / dt > 30;
        if (!small || start == 0.)
          if (!(small && len > 3 && dt < 1e-3))
            loop_run(start, dt, len);
        if (dt > 0.01)
          ops_run(start, dt, len);
        for (double odt : {0.1, 0.2, 0.3, 0.7, 1., 0.05, 3., 0.0123})
          if (len / dt < 3000)
            output_run(start, dt, len, odt);
      }
  if (mc::mine(n++))
    custom_run();
  if (mc::mine(n++))
    overflow_run();
  return mc::finish();
}
