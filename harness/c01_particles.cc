// C01: every sequence of container operations up to a depth, from several
// initial fillings (including around the allocation boundaries), compared
// step by step with a plain list of records.
#include <algorithm>

#include "smash_common.h"

using namespace smash;

namespace {
struct Rec {  // reference record of one live particle
  int id;
  PdgCode pdg;
  double px;
  double t;
  uint32_t proc;
};
struct Stale {  // a copy taken at some point
  ParticleData copy;
  int id;
  uint32_t proc;
};

struct World {
  Particles real;
  std::vector<Rec> live;
  std::vector<Stale> copies;
  int id_max = -1;
  int serial = 0;
  std::string log;
};

const char *kPdg[] = {"211", "2212", "-211"};

ParticleData make(World &w, int kind) {
  const double px = 0.001 * ++w.serial;
  ParticleData p{ParticleType::find(PdgCode(kPdg[kind]))};
  p.set_4momentum(0.138 + kind, px, 0, 0);
  p.set_4position(FourVector(w.serial, 1, 2, 3));
  p.set_history(w.serial, 1000 + w.serial, ProcessType::Elastic, 0.5, {});
  p.set_formation_time(w.serial + 0.25);
  return p;
}

bool fail(World &w, const std::string &what) {
  // shortest history identifies the case
  mc::viol("history " + w.log, what + "\nhistory: " + w.log);
  return false;
}

const Rec *find(const World &w, int id) {
  for (const auto &r : w.live)
    if (r.id == id)
      return &r;
  return nullptr;
}

bool same(const ParticleData &p, const Rec &r) {
  return p.id() == r.id && p.pdgcode() == r.pdg &&
         p.momentum().x1() == r.px && p.position().x0() == r.t &&
         p.id_process() == r.proc;
}

bool check(World &w, bool deep = true) {
  const Particles &c = w.real;
  if (c.size() != w.live.size())
    return fail(w, mc::fmt("size() is %zu, %zu particles are live", c.size(),
                           w.live.size()));
  if (c.is_empty() != w.live.empty())
    return fail(w, mc::fmt("is_empty() is %d with %zu live particles",
                           c.is_empty(), w.live.size()));
  if (!deep)
    return true;
  std::vector<int> order;
  std::set<int> ids;
  for (const auto &p : c) {
    if (order.size() > w.live.size())
      return fail(w, "iteration yields too many particles");
    const Rec *r = find(w, p.id());
    if (!r)
      return fail(w, mc::fmt("iteration yields id %d, which is not live",
                             p.id()));
    if (!same(p, *r))
      return fail(w, mc::fmt("particle %d has wrong content", p.id()));
    if (!ids.insert(p.id()).second)
      return fail(w, mc::fmt("id %d is seen twice", p.id()));
    order.push_back(p.id());
  }
  if (order.size() != w.live.size())
    return fail(w, "iteration misses live particles");
  std::vector<int> back;
  if (!order.empty()) {
    auto it = c.end();
    for (size_t i = 0; i < order.size(); i++) {
      --it;
      back.push_back(it->id());
    }
    std::reverse(back.begin(), back.end());
    if (back != order)
      return fail(w, "backward iteration differs from forward iteration");
    if (c.front().id() != order.front() || c.back().id() != order.back())
      return fail(w, "front()/back() are not the ends of the iteration");
    if (c.begin() == c.end())
      return fail(w, "begin()==end() with live particles");
  } else if (!(c.begin() == c.end())) {
    return fail(w, "begin()!=end() without particles");
  }
  const ParticleList v = c.copy_to_vector();
  if (v.size() != order.size())
    return fail(w, mc::fmt("copy_to_vector() has %zu entries for %zu live "
                           "particles", v.size(), order.size()));
  for (size_t i = 0; i < v.size(); i++)
    if (v[i].id() != order[i])
      return fail(w, "copy_to_vector() differs from the iteration");
  for (const auto &s : w.copies) {
    const Rec *r = find(w, s.id);
    const bool valid = r && r->proc == s.proc;
    if (c.is_valid(s.copy) != valid)
      return fail(w, mc::fmt("is_valid() is %d for a copy of id %d taken at "
                             "process %u, expected %d", !valid, s.id, s.proc,
                             valid));
    if (valid) {
      const ParticleData &l = c.lookup(s.copy);
      if (!same(l, *r))
        return fail(w, mc::fmt("lookup of id %d yields id %d", s.id, l.id()));
    }
  }
  return true;
}

void remember(World &w) {
  for (const auto &p : w.real)
    w.copies.push_back({p, p.id(), p.id_process()});
}
/// a currently valid handle of live particle number k (by id order)
ParticleData handle(World &w, int id) {
  for (const auto &p : w.real)
    if (p.id() == id)
      return p;
  throw std::logic_error("live particle not found by iteration");
}

void add_rec(World &w, const ParticleData &made, int id) {
  w.live.push_back({id, made.pdgcode(), made.momentum().x1(),
                    made.position().x0(), made.id_process()});
  w.id_max = std::max(w.id_max, id);
}
void erase(World &w, int id) {
  w.live.erase(std::find_if(w.live.begin(), w.live.end(),
                            [&](const Rec &r) { return r.id == id; }));
}

constexpr int kOps = 13;

/// indices of live particles the operations act on: first, middle, last
int pick(const World &w, int which) {
  const int n = static_cast<int>(w.live.size());
  return w.live[which == 0 ? 0 : which == 1 ? n / 2 : n - 1].id;
}
std::vector<int> sorted_ids(const World &w) {
  std::vector<int> v;
  for (auto &r : w.live)
    v.push_back(r.id);
  std::sort(v.begin(), v.end());
  return v;
}

/// returns -1 disabled, 0 failed, 1 ok
int apply(World &w, int op) {
  const size_t n = w.live.size();
  switch (op) {
    case 0: {  // insert
      ParticleData p = make(w, 0);
      const ParticleData &q = w.real.insert(p);
      if (q.id() <= w.id_max)
        return fail(w, mc::fmt("insert returned id %d, already used", q.id()));
      add_rec(w, p, q.id());
      return 1;
    }
    case 1: {  // create one
      const ParticleData blank{ParticleType::find(PdgCode(kPdg[1]))};
      const ParticleData &q = w.real.create(PdgCode(kPdg[1]));
      const int id = q.id();
      if (id <= w.id_max)
        return fail(w, mc::fmt("create returned id %d, already used", id));
      if (q.momentum() != FourVector() || q.id_process() != 0 ||
          !std::isnan(q.formation_time()))
        return fail(w, "create() returned a particle with old content");
      add_rec(w, blank, id);
      return 1;
    }
    case 2:
    case 3: {  // create 2 or 5 (new ids are exactly the missing ones)
      const size_t k = op == 2 ? 2 : 5;
      const ParticleData blank{ParticleType::find(PdgCode(kPdg[2]))};
      w.real.create(k, PdgCode(kPdg[2]));
      std::set<int> now;
      for (const auto &p : w.real)
        if (!find(w, p.id()))
          now.insert(p.id());
      if (now.size() != k)
        return fail(w, mc::fmt("create(%zu) added %zu particles", k,
                               now.size()));
      if (*now.begin() <= w.id_max)
        return fail(w, mc::fmt("create(n) reused id %d", *now.begin()));
      for (int id : now)
        add_rec(w, blank, id);
      return 1;
    }
    case 4:
    case 5:
    case 6: {  // remove first / middle / last (in order of creation)
      if (n == 0 || (op > 4 && n < 2) || (op == 5 && n < 3))
        return -1;
      const int id = pick(w, op - 4);
      w.real.remove(handle(w, id));
      erase(w, id);
      return 1;
    }
    case 7:
    case 8:
    case 9:
    case 10: {  // replace 2->1, 1->2, 2->2, 2->3
      const size_t out = op == 8 ? 1 : 2, in = op == 7 ? 1 : op == 10 ? 3 : 2;
      if (n < out)
        return -1;
      ParticleList from, to;
      std::vector<int> gone;
      gone.push_back(pick(w, 2));
      if (out == 2)
        gone.push_back(pick(w, 0));
      for (int id : gone)
        from.push_back(handle(w, id));
      for (size_t i = 0; i < in; i++)
        to.push_back(make(w, static_cast<int>(i) % 3));
      const ParticleList made = to;
      w.real.replace(from, to);
      for (int id : gone)
        erase(w, id);
      for (size_t i = 0; i < in; i++) {
        if (to[i].id() <= w.id_max)
          return fail(w, mc::fmt("replace gave id %d, already used",
                                 to[i].id()));
        add_rec(w, made[i], to[i].id());
        if (!w.real.is_valid(to[i]))
          return fail(w, "a particle returned by replace is not valid");
      }
      return 1;
    }
    case 11: {  // update two in place: same ids, new state
      if (n < 1)
        return -1;
      std::vector<int> ids{pick(w, 0)};
      if (n > 1)
        ids.push_back(pick(w, 2));
      ParticleList from, to;
      for (int id : ids) {
        from.push_back(handle(w, id));
        ParticleData p = from.back();
        p.set_4momentum(1.5, 0.001 * ++w.serial, 0, 0);
        p.set_4position(FourVector(w.serial, 0, 0, 0));
        p.set_history(1, 5000 + w.serial, ProcessType::Elastic, 1., {});
        to.push_back(p);
      }
      w.real.update(from, to, false);
      for (size_t i = 0; i < ids.size(); i++) {
        for (auto &r : w.live)
          if (r.id == ids[i]) {
            r.px = to[i].momentum().x1();
            r.t = to[i].position().x0();
            r.proc = to[i].id_process();
          }
        if (to[i].id() != ids[i])
          return fail(w, "update without replacement changed an id");
      }
      return 1;
    }
    default: {  // reset
      w.real.reset();
      w.live.clear();
      w.copies.clear();  // ids start again: old copies have no meaning
      w.id_max = -1;
      return 1;
    }
  }
}
const char *kName[kOps] = {"insert",   "create",   "create2",  "create5",
                           "rm-first", "rm-mid",   "rm-last",  "repl2-1",
                           "repl1-2",  "repl2-2",  "repl2-3",  "update2",
                           "reset"};

void run(int fill, int holes, const std::vector<int> &ops) {
  World w;
  w.log = mc::fmt("fill=%d holes=%d:", fill, holes);
  for (int i = 0; i < fill; i++) {
    ParticleData p = make(w, i % 3);
    add_rec(w, p, w.real.insert(p).id());
  }
  for (int i = 0; i < holes && !w.live.empty(); i++) {
    const int id = w.live[(i * 7) % w.live.size()].id;
    w.real.remove(handle(w, id));
    erase(w, id);
  }
  remember(w);
  for (size_t i = 0; i < ops.size(); i++) {
    w.log += std::string(" ") + kName[ops[i]];
    mc::cur(w.log);
    const int r = apply(w, ops[i]);
    if (r < 0)
      return;  // disabled: covered by the shorter history
    mc::transition();
    // earlier prefixes were checked by the executions that end there
    if (r == 0 || !check(w, i + 1 == ops.size()))
      return;
    if (fill < 20 || i + 1 == ops.size())
      remember(w);
  }
  mc::trace();
  std::string canon = mc::fmt("%d|", fill);
  for (const auto &p : w.real)
    canon += mc::fmt("%d,", p.id());
  mc::state(canon);
  if ((ops.size() == 4 && fill == 2) || (fill > 200 && ops.size() > 2))
    mc::sample(w.log + mc::fmt(" -> %zu live", w.live.size()));
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_shipped_particles();
  const int depth_small = mc::bound(6, 7), depth_big = mc::bound(4, 5);
  struct Seed {
    int fill, holes, depth;
  };
  std::vector<Seed> seeds;
  for (int f : {0, 1, 2, 3, 5})
    seeds.push_back({f, 0, f == 2 || f == 0 ? depth_small : depth_small - 1});
  seeds.push_back({6, 3, depth_small - 1});
  for (int f : {93, 94, 95, 96, 97, 98, 99, 100, 101})
    seeds.push_back({f, 0, depth_big});
  seeds.push_back({101, 4, depth_big});
  seeds.push_back({202, 1, depth_big});
  for (int f : {201, 203, 205, 410})
    seeds.push_back({f, 2, depth_big - 1});
  uint64_t n = 0;
  for (const auto &s : seeds)
    for (int len = 1; len <= s.depth; len++) {
      std::vector<int> ops(len, 0);
      while (true) {
        if (mc::mine(n++) && !mc::too_many())
          run(s.fill, s.holes, ops);
        int i = len - 1;
        while (i >= 0 && ++ops[i] == kOps)
          ops[i--] = 0;
        if (i < 0)
          break;
      }
    }
  return mc::finish();
}
