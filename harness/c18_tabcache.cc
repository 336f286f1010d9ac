// C18: the cache of tabulated cross-section integrals never changes a result:
// for every truncation of a cache file, crash point, failing system call,
// earlier table with another key and interleaving of concurrent runs.
#include "mc_ptrace.h"
#include "smash_common.h"
#include "smash/input_keys.h"
#include "smash/isoparticletype.h"
#include "smash/library.h"
#include "smash/sha256.h"
#include "smash/tabulation.h"

using namespace smash;

namespace {
constexpr int kPoints = 120;
struct Shared {
  double val[2][2 * kPoints];  // [process]
};
Shared *sh;

/// Tables of hypothetical versions: 1 differs in a mass, 2 in a decay mode, 3
/// has the tables of 0 but is another version of the program.
std::string particles(int version) {
  return mc::fmt(
      "π 0.138 7.7e-9 - 111 211\nσ 0.8 0.4 + 9000221\n"
      "N 0.938 0 + 2112 2212\nN(1440) %s 0.350 + 12112 12212\n",
      version == 1 ? "1.500" : "1.440");
}
std::string decays(int version) {
  return std::string("σ\n1. 0 π π\n\nN(1440)\n") +
         (version == 2 ? "0.6 1 N π\n0.4 0 N σ\n" : "1. 1 N π\n");
}

int simulation(int who, int version, const std::string &dir) {
  if (!freopen("/dev/null", "w", stdout))
    return 90;
  Configuration config(R"(Version: "1.0")", Configuration::InitializeFromYAMLString);
  config.set_value(InputKeys::particles, particles(version));
  config.set_value(InputKeys::decaymodes, decays(version));
  initialize_particles_decays_and_tabulations(
      config, version == 3 ? "SMASH-3.9" : "SMASH-3.2", dir);
  config.clear();
  const auto res = IsoParticleType::find("N(1440)").get_states()[0];
  for (int i = 0; i < kPoints; i++) {
    const double s = 1.0 + 0.037 * i;
    sh->val[who][i] = res->iso_multiplet()->get_integral_NR(s);
    sh->val[who][kPoints + i] = res->iso_multiplet()->get_integral_piR(s);
  }
  return 0;
}

std::vector<double> ref[4];

/// Result of a run to the end; empty if it failed.
std::vector<double> values(int who) {
  return std::vector<double>(sh->val[who], sh->val[who] + 2 * kPoints);
}

void expect(mc::Traced &t, int who, int version, const std::string &key,
            const std::string &what) {
  if (t.code() != 0) {
    mc::viol(key, mc::fmt("%s ends with status %d", what.c_str(),
                          t.pending().status));
    return;
  }
  const auto v = values(who);
  for (size_t i = 0; i < v.size(); i++)
    if (!(v[i] == ref[version][i])) {
      mc::viol(key, mc::fmt("%s uses a wrong integral: %s at sqrt(s)=%g is "
                            "%.9g, calculated it is %.9g",
                            what.c_str(), i < kPoints ? "N N*" : "pi N*",
                            1.0 + 0.037 * (i % kPoints), v[i],
                            ref[version][i]));
      return;
    }
}

void finish(mc::Traced &t) {
  while (t.running()) {
    t.step();
    mc::transition();
  }
}
void run_checked(const std::string &dir, int version, const std::string &key,
                 const std::string &what) {
  memset(sh->val, 0xff, sizeof sh->val);
  mc::Traced t(dir, [&] { return simulation(0, version, dir); });
  finish(t);
  expect(t, 0, version, key, what);
}
std::string contents(const std::string &dir) {
  std::vector<std::string> l;
  for (auto &e : std::filesystem::directory_iterator(dir)) {
    const std::string c = mc::slurp(e.path().string());
    l.push_back(mc::fmt("%s %zu %016llx", e.path().filename().c_str(),
                        c.size(), (unsigned long long)mc::hash(c)));
  }
  std::sort(l.begin(), l.end());
  std::string s;
  for (auto &x : l)
    s += x + "; ";
  return s;
}
void unlock(const std::string &dir) {
  std::filesystem::remove(dir + "/tabulations.lock");
}

/// Every prefix of a cache file, and keys that differ in one byte.
void truncations() {
  uint64_t job = 0;
  const std::string dir = mc::fresh_dir("trunc");
  for (size_t num : {size_t(2), size_t(3), size_t(17), size_t(200)})
    for (int f = 0; f < 3; f++) {
      if (!mc::mine(job++))
        continue;
      Tabulation t(1.1, 2.3, num, [&](double x) {
        return f == 0 ? 1.0 : f == 1 ? x * x : 1e300 / x;
      });
      sha256::Hash h;
      for (size_t i = 0; i < h.size(); i++)
        h[i] = 7 * i + f;
      const std::string file = dir + "/t.bin";
      {
        std::ofstream o(file);
        t.write(o, h);
      }
      const std::string all = mc::slurp(file);
      auto same = [&](const Tabulation &a) {
        for (int i = -5; i < 300; i++) {
          const double x = 1.1 + 2.3 * i / 250.;
          for (auto e : {Extrapolation::Zero, Extrapolation::Const,
                         Extrapolation::Linear})
            if (a.get_value_linear(x, e) != t.get_value_linear(x, e))
              return false;
          if (a.get_value_step(x) != t.get_value_step(x))
            return false;
        }
        return true;
      };
      for (size_t n = 0; n <= all.size(); n++) {
        const std::string key = mc::fmt("table of %zu values (function %d) cut "
                                        "after %zu of %zu bytes", num, f, n,
                                        all.size());
        mc::cur(key);
        mc::state(key);
        mc::transition();
        {
          std::ofstream o(file);
          o.write(all.data(), n);
        }
        try {
          std::ifstream i(file);
          const Tabulation r = Tabulation::from_file(i, h);
          if (n == all.size() ? (r.is_empty() || !same(r))
                              : !(r.is_empty() || same(r)))
            mc::viol(key, r.is_empty() ? "a complete table is not used"
                                       : "the rest is taken as a table");
        } catch (const std::exception &e) {
          mc::viol(key, std::string("reading it fails: ") + e.what());
        }
        mc::trace();
      }
      {
        std::ofstream o(file);
        o << all;
      }
      for (size_t b = 0; b < h.size() * 8; b++) {
        sha256::Hash g = h;
        g[b / 8] ^= 1 << b % 8;
        std::ifstream i(file);
        mc::transition();
        if (!Tabulation::from_file(i, g).is_empty())
          mc::viol(mc::fmt("key differing in bit %zu", b),
                   "a table stored for another key is used");
      }
    }
}

/// Runs one after the other with the same and with different tables.
void sequences() {
  mc::explore([&](mc::Chooser &c) {
    const std::string dir = mc::fresh_dir("seq");
    std::string key = "runs in a row:";
    std::string before;
    int prev = -1;
    for (int i = 0; i < mc::bound(3, 4); i++) {
      const int v = c(mc::bound(3, 4));
      key += mc::fmt(" version%d", v);
      run_checked(dir, v, key, mc::fmt("run %d", i + 1));
      const std::string now = contents(dir);
      if (now.find("lock") != std::string::npos)
        mc::viol(key, "the lock is left behind");
      if (v == prev && now != before)
        mc::viol(key, "a second run with the same tables changes the cache");
      if (now.find(".bin") == std::string::npos)
        mc::viol(key, "nothing is cached");
      prev = v;
      before = now;
      mc::state(now);
    }
    mc::trace();
  });
}

/// What another version of the program stored is not used: its values are
/// altered here so that using them would be seen.
void other_program() {
  const std::string key = "cache of another program version";
  for (int back = 1; back <= 4; back++) {
    const std::string dir = mc::fresh_dir("other");
    run_checked(dir, 0, key, "the first run");
    for (auto &e : std::filesystem::directory_iterator(dir)) {
      std::string c = mc::slurp(e.path().string());
      if (c.size() < 500)
        continue;
      for (size_t i = 0; i < 20u * back && 8 * i + 300 < c.size(); i++)
        c[c.size() - 2 - 8 * i] ^= 0x0f;
      std::ofstream(e.path()) << c;
    }
    run_checked(dir, 3, key, "a run of another version of the program");
    mc::trace();
    mc::state(key + contents(dir));
  }
}

/// A run on a given cache dies at every system call.
void crashes(int first) {
  // first: -1 empty cache, 0/1 filled by this version
  for (size_t k = 0;; k++) {
    bool done = false;
    const uint64_t parts = 6;
    for (uint64_t part = 0; part < parts && !done; part++) {
      const std::string dir = mc::fresh_dir("crash");
      if (first >= 0)
        run_checked(dir, first, "preparation", "preparation");
      mc::Traced t(dir, [&] { return simulation(0, 0, dir); });
      for (size_t i = 0; i < k && t.running(); i++)
        t.step();
      if (!t.running()) {
        if (part == 0)
          return;
        break;
      }
      const auto ev = t.pending();
      if (part > 0 && ev.len == 0)
        break;
      uint64_t n = part == 0   ? 0
                   : part == 1 ? 1
                   : part == 2 ? 40
                   : part == 3 ? ev.len / 2
                   : part == 4 ? ev.len - 1
                               : ev.len;
      n = std::min(n, ev.len);
      const std::string key = mc::fmt(
          "cache of version %d, crash at call %zu (%s) after %llu bytes", first,
          k, (ev.name + ev.path.substr(dir.size())).c_str(),
          (unsigned long long)n);
      mc::cur(key);
      t.crash(n);
      mc::transition();
      mc::state(contents(dir));
      run_checked(dir, 0, key, "the next run");
      unlock(dir);
      run_checked(dir, 0, key, "the next run after removing the stale lock");
      run_checked(dir, 0, key, "the second next run");
      run_checked(dir, 1, key, "a run of another version");
      mc::trace();
      if (k % 7 == 0)
        mc::sample(key);
      if (mc::too_many())
        return;
    }
  }
}

/// Every system call fails once.
void failures(int err) {
  for (size_t k = 0;; k++) {
    const std::string dir = mc::fresh_dir("fail");
    mc::Traced t(dir, [&] { return simulation(0, 0, dir); });
    for (size_t i = 0; i < k && t.running(); i++)
      t.step();
    if (!t.running())
      return;
    const auto ev = t.pending();
    const std::string key =
        mc::fmt("call %zu (%s) fails with %s", k,
                (ev.name + ev.path.substr(dir.size())).c_str(), strerror(err));
    if (ev.name == "close" || ev.name == "unlink" || ev.name == "stat" ||
        ev.name == "read")
      continue;
    mc::cur(key);
    t.step_error(err);
    finish(t);
    mc::transition();
    expect(t, 0, 0, key, "the run itself");
    unlock(dir);
    run_checked(dir, 0, key, "the next run");
    mc::state(contents(dir));
    mc::trace();
  }
}

/// Two runs at the same time, every schedule up to a preemption bound.
void concurrent(int v0, int v1, bool filled, int bound, uint64_t part,
                uint64_t parts) {
  uint64_t n = 0;
  mc::explore([&](mc::Chooser &c) {
    const int firstproc = c(2);
    const int p1 = c(26);
    if ((firstproc * 26 + p1) % parts != part)
      return;
    const std::string dir = mc::fresh_dir("conc");
    if (filled)
      run_checked(dir, v0, "preparation", "preparation");
    memset(sh->val, 0xff, sizeof sh->val);
    std::unique_ptr<mc::Traced> t[2];
    const int v[2] = {v0, v1};
    for (int i = 0; i < 2; i++)
      t[i] = std::make_unique<mc::Traced>(
          dir, [&, i] { return simulation(i, v[i], dir); });
    int run = firstproc, switches = 0;
    std::string hist;
    size_t first_slice = p1;
    for (;;) {
      if (!t[0]->running() && !t[1]->running())
        break;
      if (!t[run]->running()) {
        run = 1 - run;
      } else if (t[1 - run]->running() && switches < bound) {
        bool sw;
        if (switches == 0) {
          sw = first_slice-- == 0;
        } else {
          sw = c(2);
        }
        if (sw) {
          run = 1 - run;
          switches++;
          hist += " |";
        }
      }
      hist += mc::fmt(" %d:%s", run, t[run]->pending().name.c_str());
      t[run]->step();
      mc::transition();
    }
    const std::string key = mc::fmt("versions %d and %d at once, cache %s, ",
                                    v0, v1, filled ? "filled" : "empty") + hist;
    mc::cur(key);
    mc::state(key);
    expect(*t[0], 0, v0, key, "the first run");
    expect(*t[1], 1, v1, key, "the second run");
    if (std::filesystem::exists(dir + "/tabulations.lock"))
      mc::viol(key, "the lock is left behind");
    for (int i = 0; i < 2; i++) {
      t[i].reset();
    }
    run_checked(dir, v0, key, "a later run");
    mc::trace();
    mc::extra("schedules");
    if (n++ % 101 == 0)
      mc::sample(key);
  });
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  sh = mc::shared<Shared>();
  for (int v : {0, 1, 2, 3}) {
    mc::Traced t("/nonexistent", [&] { return simulation(0, v, ""); });
    while (t.running())
      t.step();
    if (t.code() != 0)
      throw std::runtime_error("the calculation without cache failed");
    ref[v] = values(0);
  }
  if (ref[0] == ref[1] || ref[0] == ref[2] || ref[1] == ref[2] ||
      ref[0] != ref[3])
    throw std::runtime_error("the versions do not give the expected results");
  truncations();
  if (mc::mine(0))
    sequences();
  if (mc::mine(1))
    crashes(-1);
  if (mc::mine(2))
    crashes(1);
  if (mc::mine(3))
    crashes(0);
  if (mc::mine(4))
    failures(ENOSPC);
  if (mc::mine(5))
    failures(EACCES);
  if (mc::mine(6))
    other_program();
  const int b = mc::bound(3, 4);
  const uint64_t n = mc::G().nshards, s = mc::G().shard;
  concurrent(0, 0, false, b, s, n);
  concurrent(0, 1, false, b, s, n);
  concurrent(0, 0, true, b, s, n);
  concurrent(0, 1, true, b, s, n);
  return mc::finish();
}
