// C02: every sequence of queue operations up to a depth against a multiset.
#include <algorithm>

#include "smash/action.h"
#include "smash/actions.h"
#include "smash_common.h"

using namespace smash;

namespace {
struct Probe : Action {
  Probe(const ParticleData &in, double t, int tag_)
      : Action({in}, {in}, t, ProcessType::Elastic), tag(tag_) {
    alive++;
  }
  ~Probe() override { alive--; }
  double get_total_weight() const override { return 1; }
  double get_partial_weight() const override { return 1; }
  void generate_final_state() override {}
  void format_debug_output(std::ostream &out) const override { out << tag; }
  int tag;
  static int alive;
};
int Probe::alive = 0;

const double kTimes[] = {1.0, 2.0, 2.0000001, 0.0, -3.5, 2.0};

struct World {
  std::unique_ptr<Actions> q;
  std::vector<std::pair<double, int>> ref;  // time, tag
  int tag = 0;
  std::string log;
};
ParticleData *part;

bool fail(World &w, const std::string &what) {
  mc::viol("queue " + w.log, what + "\nhistory: " + w.log);
  return false;
}
ActionPtr make(World &w, double t) {
  w.ref.emplace_back(t, w.tag);
  return std::make_unique<Probe>(*part, t, w.tag++);
}

bool check(World &w) {
  if (w.q->size() != w.ref.size() || w.q->is_empty() != w.ref.empty())
    return fail(w, mc::fmt("size %zu, expected %zu", w.q->size(),
                           w.ref.size()));
  if (Probe::alive != static_cast<int>(w.ref.size()))
    return fail(w, "number of existing actions is wrong");
  if (w.ref.empty())
    return true;
  double first = 1e9;
  for (auto &r : w.ref)
    first = std::min(first, r.first);
  if (w.q->earliest_time() != first)
    return fail(w, mc::fmt("earliest time is %g, expected %g",
                           w.q->earliest_time(), first));
  std::vector<std::pair<double, int>> seen;
  for (const auto &a : *w.q)
    seen.emplace_back(a->time_of_execution(),
                      static_cast<const Probe &>(*a).tag);
  auto sorted = w.ref;
  std::sort(sorted.begin(), sorted.end());
  std::sort(seen.begin(), seen.end());
  if (seen != sorted)
    return fail(w, "iteration does not visit every pending action once");
  return true;
}

bool pop(World &w) {
  double first = 1e9;
  for (auto &r : w.ref)
    first = std::min(first, r.first);
  if (w.ref.empty()) {
    try {
      w.q->pop();
    } catch (const std::runtime_error &) {
      return true;
    }
    return fail(w, "taking from an empty queue is not an error");
  }
  ActionPtr a = w.q->pop();
  if (!a)
    return fail(w, "an empty action was handed out");
  const int tag = static_cast<Probe &>(*a).tag;
  auto it = std::find_if(w.ref.begin(), w.ref.end(),
                         [&](auto &r) { return r.second == tag; });
  if (it == w.ref.end())
    return fail(w, mc::fmt("action %d handed out twice", tag));
  if (a->time_of_execution() != first || it->first != first)
    return fail(w, mc::fmt("action at t=%g handed out before one at %g",
                           a->time_of_execution(), first));
  w.ref.erase(it);
  return true;
}

constexpr int kOps = 10;
bool apply(World &w, int op) {
  w.log += mc::fmt(" %d", op);
  mc::transition();
  switch (op) {
    case 0:
    case 1:
    case 2:
    case 3:
    case 4:
      w.q->insert(make(w, kTimes[op]));
      return true;
    case 5: {
      ActionList l;
      for (double t : {2.0, 0.5, 1.0})
        l.push_back(make(w, t));
      w.q->insert(std::move(l));
      return true;
    }
    case 6: {
      ActionList l;
      w.q->insert(std::move(l));
      return true;
    }
    case 7:
    case 8: {
      for (int i = 0; i < (op == 7 ? 1 : 2); i++)
        if (!pop(w))
          return false;
      return true;
    }
    default:
      w.q->clear();
      w.ref.clear();
      return true;
  }
}

void run(int start, const std::vector<int> &ops) {
  World w;
  w.log = mc::fmt("start=%d ops", start);
  if (start < 0) {
    w.q = std::make_unique<Actions>();
  } else {
    // all 5^start initial lists are covered by the caller
    ActionList l;
    int code = start;
    while (code > 0) {
      l.push_back(make(w, kTimes[(code % 6 + 5) % 6]));
      code /= 6;
    }
    w.q = std::make_unique<Actions>(std::move(l));
  }
  mc::cur(w.log);
  if (!check(w))
    return;
  for (int op : ops)
    if (!apply(w, op) || !check(w))
      return;
  // drain: what is left comes out in order
  std::string canon;
  for (auto &r : w.ref)
    canon += mc::fmt("%g,", r.first);
  mc::state(canon);
  double last = -1e9;
  while (!w.ref.empty()) {
    const double t = w.q->earliest_time();
    if (t < last)
      return (void)fail(w, "time order is violated");
    last = t;
    if (!pop(w))
      return;
  }
  if (!w.q->is_empty())
    fail(w, "the queue is not empty after everything was taken");
  if (ops.size() == 3 && ops[0] == 5)
    mc::sample(w.log + " drained");
  mc::trace();
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_shipped_particles();
  ParticleData p = mc::particle(mc::pdg("211"), 0.138, 0, 0, 0);
  part = &p;
  uint64_t n = 0;
  auto all = [&](int start, int depth) {
    for (int len = 0; len <= depth; len++) {
      std::vector<int> ops(len, 0);
      while (true) {
        if (mc::mine(n++) && !mc::too_many())
          run(start, ops);
        int i = len - 1;
        while (i >= 0 && ++ops[i] == kOps)
          ops[i--] = 0;
        if (i < 0)
          break;
      }
    }
  };
  all(-1, mc::bound(6, 7));
  int lim = 1;
  for (int i = 0; i < mc::bound(5, 6); i++)
    lim *= 6;
  for (int s = 1; s < lim; s++)
    all(s, s < 216 ? 3 : 1);
  return mc::finish();
}
