// C17: at most one process holds a file lock, for every interleaving of the
// system calls of competing processes and every crash point.
#include "mc_ptrace.h"
#include "smash/filelock.h"

using namespace smash;

namespace {
struct Shared {
  int holding[3];
  int phase[3];    // running number of the operation begun
  int result[3];   // of the last acquire: 0 running, 1 true, 2 false, 3 thrown
  int bad[3];
};

/// script: A acquire (creates the lock object if needed), D destroy
int process(Shared *sh, int me, const std::string &dir,
            const std::string &script) {
  std::unique_ptr<FileLock> lock;
  auto mark = [&](const char *what) {
    access((dir + "/" + what).c_str(), F_OK);
  };
  bool have = false;
  for (char c : script) {
    if (c == 'A') {
      if (!lock)
        lock = std::make_unique<FileLock>(dir + "/the.lock");
      sh->result[me] = 0;
      sh->phase[me]++;
      mark("begin");
      bool threw = false, got = false;
      try {
        got = lock->acquire();
      } catch (const std::exception &) {
        threw = true;
      }
      if (threw != have)
        sh->bad[me] = have ? 1 : 2;
      sh->result[me] = threw ? 3 : got ? 1 : 2;
      if (got) {
        have = true;
        sh->holding[me] = 1;
      }
      mark("critical");
    } else {
      sh->holding[me] = 0;
      have = false;
      lock.reset();
      mark("released");
    }
  }
  sh->holding[me] = 0;
  return 0;
}

struct Case {
  std::vector<std::string> scripts;
  int preemptions;  // -1: unbounded
  bool crash;
};

void run_case(const Case &cs, Shared *sh, uint64_t &count) {
  const std::string dir = mc::fresh_dir("lock");
  const std::string file = dir + "/the.lock";
  const int n = cs.scripts.size();
  std::string name = "locks";
  for (auto &s : cs.scripts)
    name += " " + s;
  if (cs.crash)
    name += " +crash";
  mc::explore([&](mc::Chooser &c) {
    memset(sh, 0, sizeof *sh);
    std::filesystem::remove(file);
    std::vector<std::unique_ptr<mc::Traced>> p;
    for (int i = 0; i < n; i++)
      p.push_back(std::make_unique<mc::Traced>(
          dir, [&, i] { return process(sh, i, dir, cs.scripts[i]); }));
    std::vector<int> phase(n, 0);
    std::vector<bool> seen(n, false);
    bool crashed_with_lock = false, crashed = false;
    int last = -1, switches = 0;
    std::string hist;
    for (;;) {
      std::vector<int> alive;
      for (int i = 0; i < n; i++)
        if (p[i]->running())
          alive.push_back(i);
      if (alive.empty())
        break;
      std::vector<int> options;
      const bool last_alive = last >= 0 && p[last]->running();
      if (last_alive)
        options.push_back(last);
      if (!last_alive || cs.preemptions < 0 || switches < cs.preemptions)
        for (int i : alive)
          if (!(last_alive && i == last))
            options.push_back(i);
      const int k = options.size();
      int pick = c(cs.crash && !crashed ? 2 * k : k);
      const int who = options[pick % k];
      if (last_alive && who != last)
        switches++;
      last = who;
      const bool existed = std::filesystem::exists(file);
      if (phase[who] != sh->phase[who]) {
        phase[who] = sh->phase[who];
        seen[who] = false;
      }
      seen[who] = seen[who] || existed;
      const std::string what = p[who]->pending().name + " " +
                               p[who]->pending().path.substr(dir.size());
      if (pick >= k) {
        hist += mc::fmt(" | %d dies before %s", who, what.c_str());
        crashed = true;
        crashed_with_lock = sh->holding[who];
        p[who]->crash();
        sh->holding[who] = 0;
      } else {
        hist += mc::fmt(" | %d: %s", who, what.c_str());
        p[who]->step();
      }
      mc::transition();
      int holders = 0;
      for (int i = 0; i < n; i++)
        holders += sh->holding[i];
      const std::string key = name + " " + c.str();
      mc::cur(name + hist);
      std::string st = name;
      for (int i = 0; i < n; i++)
        st += mc::fmt(" %d%d%d %s", sh->holding[i], sh->phase[i],
                      sh->result[i], p[i]->pending().str().c_str());
      mc::state(st);
      const bool now = std::filesystem::exists(file);
      if (holders > 1)
        mc::viol(key, mc::fmt("%d processes hold the lock:", holders) + hist);
      if (holders == 1 && !now)
        mc::viol(key, "the lock is held but its file is gone:" + hist);
      for (int i = 0; i < n; i++) {
        if (sh->bad[i])
          mc::viol(key, (sh->bad[i] == 1
                             ? "acquiring an acquired lock is not refused:"
                             : "acquiring throws:") + hist);
      }
      if (sh->result[who] == 2 && phase[who] == sh->phase[who] && !seen[who])
        mc::viol(key, "a free lock could not be acquired:" + hist);
      if (mc::too_many())
        return;
    }
    bool fine = true;
    for (int i = 0; i < n; i++)
      fine = fine && (p[i]->code() == 0 || crashed);
    if (!fine)
      mc::viol(name + " " + c.str(), "a process failed:" + hist);
    const bool left = std::filesystem::exists(file);
    if (left && !crashed)
      mc::viol(name + " " + c.str(), "the lock file is left behind:" + hist);
    if (crashed_with_lock && !left)
      mc::viol(name + " " + c.str(),
               "the lock of a process that died was taken over:" + hist);
    mc::trace();
    if (count++ % 997 == 0)
      mc::sample(name + hist);
  });
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  auto *sh = mc::shared<Shared>();
  std::vector<Case> cases;
  // one process, alone
  for (const char *s : {"A", "AD", "AA", "AAD", "ADA", "ADAD", "D", "ADAAD"}) {
    cases.push_back({{s}, -1, false});
    cases.push_back({{s}, -1, true});
  }
  // every interleaving of two
  for (const char *s : {"A", "AD", "AAD"})
    for (const char *t : {"A", "AD", "AAD", "ADAD"})
      cases.push_back({{s, t}, mc::bound(4, 8), false});
  cases.push_back({{"AD", "AD"}, -1, false});
  cases.push_back({{"A", "AD"}, mc::bound(3, -1), true});
  cases.push_back({{"AD", "AD"}, mc::bound(2, -1), true});
  cases.push_back({{"AD", "ADAD"}, mc::bound(2, 4), true});
  cases.push_back({{"AAD", "ADAD"}, mc::bound(2, 4), true});
  if (mc::thorough())
    cases.push_back({{"AD", "ADAD"}, -1, false});
  // three
  cases.push_back({{"A", "A", "A"}, mc::bound(3, 6), false});
  cases.push_back({{"AD", "AD", "AD"}, mc::bound(2, 5), false});
  cases.push_back({{"AD", "ADAD", "A"}, mc::bound(2, 4), false});
  cases.push_back({{"AD", "AD", "A"}, mc::bound(1, 2), true});
  uint64_t job = 0, count = 0;
  for (auto &c : cases)
    if (mc::mine(job++))
      run_case(c, sh, count);
  mc::extra("executions", count);
  return mc::finish();
}
