// C15: a Configuration behaves as the nested map given by its YAML text:
// every sequence of operations agrees with an independent tree model.
// clang-format off
#include "smash_common.h"
#include "smash/input_keys.h"
#include "yaml-cpp/yaml.h"
// clang-format on
#include <memory>
#include <optional>

using namespace smash;

namespace {
// ---- model ------------------------------------------------------------------
struct T {
  enum Kind { Null, Scalar, Seq, Map } kind = Null;
  std::string s;
  std::vector<std::string> q;
  std::map<std::string, T> m;
  bool operator==(const T &o) const {
    return kind == o.kind && s == o.s && q == o.q && m == o.m;
  }
  std::string str() const {
    if (kind == Null) return "~";
    if (kind == Scalar) return s;
    std::string r = kind == Seq ? "[" : "{";
    for (auto &x : q) r += x + ",";
    for (auto &x : m) r += x.first + ":" + x.second.str() + ",";
    return r + (kind == Seq ? "]" : "}");
  }
};
T from_yaml(const YAML::Node &n) {
  T t;
  if (!n.IsDefined() || n.IsNull()) return t;
  if (n.IsScalar()) {
    t.kind = T::Scalar;
    t.s = n.Scalar();
  } else if (n.IsSequence()) {
    t.kind = T::Seq;
    for (auto x : n)
      t.q.push_back(x.Scalar());
  } else {
    t.kind = T::Map;
    for (auto x : n)
      t.m[x.first.Scalar()] = from_yaml(x.second);
  }
  return t;
}
using Path = std::vector<std::string>;
T *at(T &t, const Path &p) {
  T *c = &t;
  for (auto &k : p) {
    if (c->kind != T::Map || !c->m.count(k))
      return nullptr;
    c = &c->m[k];
  }
  return c;
}
void prune(T &t) {  // empty maps below t vanish
  for (auto it = t.m.begin(); it != t.m.end();) {
    prune(it->second);
    if (it->second.kind == T::Map && it->second.m.empty())
      it = t.m.erase(it);
    else
      ++it;
  }
}
struct Error {
  std::string kind;
};
T merge(T a, const T &b, bool top = true) {
  if (b.kind != T::Map)
    return b;
  if (a.kind != T::Map) {
    if (a.kind == T::Null) {
      a = T();
      a.kind = T::Map;
    } else {
      throw Error{"merge"};
    }
  }
  (void)top;
  for (auto &x : b.m) {
    T sub = x.second;
    prune(sub);
    if (sub.kind == T::Map && sub.m.empty())
      continue;  // empty sections do not exist
    a.m[x.first] = merge(a.m.count(x.first) ? a.m[x.first] : T(), x.second, false);
  }
  return a;
}
struct Model {
  T root;
  std::set<Path> taken;
  bool hollow = false;  // result of extracting a missing section
  std::string str() const {
    std::string s = root.str() + "|";
    for (auto &p : taken) {
      for (auto &k : p) s += k + ":";
      s += ",";
    }
    return s + (hollow ? "!" : "");
  }
};

// ---- keys -------------------------------------------------------------------
const KeyMetadata kV = {"1.0"};
template <class U>
struct K {
  Path path;
  std::optional<U> def;
  bool dependent;
  Key<U> key;
};
std::function<bool(const int &)> nonneg = [](const int &v) { return v >= 0; };
K<int> kd(Path p, int d) { return {p, d, false, Key<int>{p, d, kV, nonneg}}; }
K<int> km(Path p) { return {p, std::nullopt, false, Key<int>{p, kV, nonneg}}; }
K<int> kdep(Path p) {
  return {p, std::nullopt, true, Key<int>{p, DefaultType::Dependent, kV, nonneg}};
}

std::optional<int> to_int(const std::string &s) {
  try {
    size_t n;
    int v = std::stoi(s, &n);
    if (n == s.size()) return v;
  } catch (...) {
  }
  return std::nullopt;
}
/// value of type U of a tree node; Error "type" if it has not that type
template <class U>
U value_of(const T &t);
template <>
int value_of<int>(const T &t) {
  auto v = t.kind == T::Scalar ? to_int(t.s) : std::nullopt;
  if (!v) throw Error{"type"};
  return *v;
}
template <>
std::string value_of<std::string>(const T &t) {
  if (t.kind != T::Scalar) throw Error{"type"};
  return t.s;
}
template <>
std::vector<int> value_of<std::vector<int>>(const T &t) {
  if (t.kind != T::Seq) throw Error{"type"};
  std::vector<int> r;
  for (auto &x : t.q) {
    auto v = to_int(x);
    if (!v) throw Error{"type"};
    r.push_back(*v);
  }
  return r;
}
template <>
std::map<std::string, int> value_of<std::map<std::string, int>>(const T &t) {
  if (t.kind != T::Map) throw Error{"type"};
  std::map<std::string, int> r;
  for (auto &x : t.m)
    r[x.first] = value_of<int>(x.second);
  return r;
}
std::string show(int v) { return std::to_string(v); }
std::string show(const std::string &v) { return v; }
std::string show(const std::vector<int> &v) {
  std::string s = "[";
  for (int x : v) s += std::to_string(x) + ",";
  return s + "]";
}
std::string show(const std::map<std::string, int> &v) {
  std::string s = "{";
  for (auto &x : v) s += x.first + ":" + std::to_string(x.second) + ",";
  return s + "}";
}
template <class U>
bool is_map() { return std::is_same_v<U, std::map<std::string, int>>; }

template <class U>
bool valid_value(const K<U> &k, const U &v) { return k.key.validate(v); }

template <class U>
std::string model_get(Model &m, const K<U> &k, bool remove) {
  T *n = at(m.root, k.path);
  const bool has_value = n && n->kind != T::Null && n->kind != T::Map;
  const bool section = n && n->kind == T::Map;
  if (has_value || (section && is_map<U>())) {
    const T copy = *n;
    if (remove) {
      Path up(k.path.begin(), k.path.end() - 1);
      at(m.root, up)->m.erase(k.path.back());
      prune(m.root);
      m.taken.insert(k.path);
    }
    const U v = value_of<U>(copy);
    if (!valid_value(k, v)) throw Error{"invalid"};
    return show(v);
  }
  if (section) throw Error{"section"};
  if (remove && m.taken.count(k.path)) throw Error{"twice"};
  if (!k.def) throw Error{"missing"};
  return show(*k.def);
}
template <class U>
std::string real_get(Configuration &c, const K<U> &k, bool remove) {
  try {
    return show(remove ? c.take(k.key) : static_cast<const Configuration &>(c).read(k.key));
  } catch (const Configuration::IncorrectTypeInAssignment &) {
    throw Error{"type"};
  } catch (const YAML::Exception &) {
    throw Error{"type"};
  } catch (const Configuration::TakeSameKeyTwice &) {
    throw Error{"twice"};
  } catch (const std::invalid_argument &e) {
    throw Error{std::string(e.what()).find("missing") != std::string::npos ? "missing" : "invalid"};
  } catch (const std::logic_error &) {
    throw Error{"section"};
  }
}

// ---- operations -------------------------------------------------------------
struct Real {
  std::unique_ptr<Configuration> c;
};
struct Op {
  std::string name;
  std::function<std::string(Model &)> model;
  std::function<std::string(Real &)> real;
};
std::vector<Op> ops;
std::vector<std::function<std::string(Model &)>> readers_m;
std::vector<std::function<std::string(Real &)>> readers_r;
std::vector<std::string> readers_n;

std::string path_str(const Path &p) {
  std::string s;
  for (auto &k : p) s += (s.empty() ? "" : ":") + k;
  return s;
}
template <class U>
void add_take(const std::string &type, K<U> k) {
  ops.push_back({"take " + type + " " + path_str(k.path),
                 [k](Model &m) { return model_get(m, k, true); },
                 [k](Real &r) { return real_get(*r.c, k, true); }});
}
template <class U>
void add_read(const std::string &type, K<U> k) {
  readers_n.push_back("read " + type + " " + path_str(k.path));
  readers_m.push_back([k](Model &m) { return model_get(m, k, false); });
  readers_r.push_back([k](Real &r) { return real_get(*r.c, k, false); });
}
const std::vector<Path> kPaths = {{"A"}, {"A", "B"}, {"A", "C"}, {"A", "B", "D"},
                                  {"E"}, {"X"}, {"X", "A"}, {"X", "Y", "A", "B"}, {"F", "G"}};

void setup() {
  add_take("int=7", kd({"A"}, 7));
  add_take("int=8", kd({"A", "B"}, 8));
  add_take("int", km({"A", "B"}));
  add_take("int=9", kd({"A", "C"}, 9));
  add_take("int", km({"A", "B", "D"}));
  add_take("int", km({"E"}));
  add_take("int=1", kd({"X", "A"}, 1));
  add_take("string", K<std::string>{{"A", "B"}, std::nullopt, false,
                                    Key<std::string>{{"A", "B"}, kV}});
  add_take("vector", K<std::vector<int>>{{"A", "C"}, std::nullopt, false,
                                         Key<std::vector<int>>{{"A", "C"}, kV}});
  using M = std::map<std::string, int>;
  add_take("map", K<M>{{"A"}, std::nullopt, false, Key<M>{{"A"}, kV}});
  add_take("map", K<M>{{"A", "B"}, M{{"d", 4}}, false, Key<M>{{"A", "B"}, M{{"d", 4}}, kV}});
  // dependent defaults
  for (const Path &p : {Path{"A", "C"}, Path{"E"}})
    for (int d : {3, -3}) {
      auto k = kdep(p);
      ops.push_back({mc::fmt("take dependent %d ", d) + path_str(p),
                     [k, d](Model &m) {
                       if (d < 0) throw Error{"section"};
                       T *n = at(m.root, k.path);
                       if (n && n->kind != T::Null && n->kind != T::Map)
                         return model_get(m, k, true);
                       return show(d);
                     },
                     [k, d](Real &r) {
                       try {
                         return show(r.c->take(k.key, d));
                       } catch (const Configuration::IncorrectTypeInAssignment &) {
                         throw Error{"type"};
                       } catch (const std::invalid_argument &) {
                         throw Error{"invalid"};
                       } catch (const std::logic_error &) {
                         throw Error{"section"};
                       }
                     }});
    }
  {
    auto k = kd({"E"}, 5);
    ops.push_back({"take with default E",
                   [](Model &) -> std::string { throw Error{"section"}; },
                   [k](Real &r) {
                     try {
                       return show(r.c->take(k.key, 6));
                     } catch (const std::logic_error &) {
                       throw Error{"section"};
                     }
                   }});
  }
  for (const Path &p : {Path{"A"}, Path{"A", "B"}, Path{"A", "B", "D"}, Path{"E"}, Path{"F", "G"}})
    for (int v : {5, -1}) {
      if (v < 0 && p != Path{"A", "B"}) continue;
      Key<int> key{p, kV};
      ops.push_back({mc::fmt("set %d ", v) + path_str(p),
                     [p, v](Model &m) {
                       T *c = &m.root;
                       for (auto &k : p) {
                         if (c->kind == T::Scalar) throw Error{"set"};
                         if (c->kind != T::Map) {
                           *c = T();
                           c->kind = T::Map;
                         }
                         c = &c->m[k];
                       }
                       *c = T();
                       c->kind = T::Scalar;
                       c->s = std::to_string(v);
                       return std::string();
                     },
                     [key, v](Real &r) {
                       try {
                         r.c->set_value(key, v);
                       } catch (const YAML::Exception &) {
                         throw Error{"set"};
                       }
                       return std::string();
                     }});
    }
  for (const char *y : {"A: {B: 11}", "A: {B: {D: 12, H: 13}}", "A: 14", "{A: {C: [1, 2, 3]}, E: 15}",
                        "E: text", "X: {Y: {A: {B: 1}}}", "A: {B: }", "E: {}"}) {
    const std::string s = y;
    ops.push_back({"merge " + s,
                   [s](Model &m) {
                     m.root = merge(m.root, from_yaml(YAML::Load(s)));
                     return std::string();
                   },
                   [s](Real &r) {
                     try {
                       r.c->merge_yaml(s);
                     } catch (const YAML::Exception &) {
                       throw Error{"merge"};
                     }
                     return std::string();
                   }});
  }
  for (const Path &p : {Path{"A"}, Path{"A", "B"}, Path{"E"}, Path{"X"}})
    for (bool complete : {false, true})
      for (bool empty : {false, true}) {
        if (empty && complete && p.size() == 2) continue;
        ops.push_back(
            {std::string("extract ") + (complete ? "complete " : "") + (empty ? "or empty " : "") + path_str(p),
             [p, complete, empty](Model &m) {
               T *n = at(m.root, p);
               T sub;
               std::string rest;
               if (!n) {
                 if (!empty) throw Error{"extract"};
                 rest = m.root.str();
                 sub.kind = T::Map;
                 m.hollow = !complete;
               } else if (n->kind != T::Map || n->m.empty()) {
                 throw Error{"extract"};
               } else {
                 sub = *n;
                 Path up(p.begin(), p.end() - 1);
                 at(m.root, up)->m.erase(p.back());
                 prune(m.root);
                 rest = m.root.str();
                 m.hollow = false;
               }
               if (complete)
                 for (auto k = p.rbegin(); k != p.rend(); ++k) {
                   T o;
                   o.kind = T::Map;
                   o.m[*k] = sub;
                   sub = o;
                 }
               m.root = sub;
               m.taken.clear();
               return rest;
             },
             [p, complete, empty](Real &r) {
               const auto e = empty ? Configuration::GetEmpty::Yes : Configuration::GetEmpty::No;
               std::unique_ptr<Configuration> sub;
               try {
                 sub = std::make_unique<Configuration>(
                     complete ? r.c->extract_complete_sub_configuration(p, e)
                              : r.c->extract_sub_configuration(p, e));
               } catch (const std::runtime_error &) {
                 throw Error{"extract"};
               }
               T t = from_yaml(YAML::Load(r.c->to_string()));
               if (t.kind == T::Null) t.kind = T::Map;
               r.c->clear();
               r.c = std::move(sub);
               return t.str();
             }});
      }
  for (const Path &p : {Path{"X"}, Path{"X", "Y"}})
    ops.push_back({"enclose into " + path_str(p),
                   [p](Model &m) {
                     m.hollow = false;
                     T sub = m.root;
                     if (sub.kind == T::Null) sub.kind = T::Map;
                     for (auto k = p.rbegin(); k != p.rend(); ++k) {
                       T o;
                       o.kind = T::Map;
                       o.m[*k] = sub;
                       sub = o;
                     }
                     m.root = sub;
                     return std::string();
                   },
                   [p](Real &r) {
                     r.c->enclose_into_section(p);
                     return std::string();
                   }});
  struct RA { std::string key; Path sec; };
  for (const RA &a : {RA{"A", {}}, RA{"B", {"A"}}, RA{"D", {"A", "B"}}, RA{"E", {}}})
    ops.push_back({"keep only " + a.key + " in " + path_str(a.sec),
                   [a](Model &m) {
                     T *n = at(m.root, a.sec);
                     if (!n || n->kind != T::Map || !n->m.count(a.key)) throw Error{"keep"};
                     T k = n->m[a.key];
                     n->m.clear();
                     n->m[a.key] = k;
                     return std::string();
                   },
                   [a](Real &r) {
                     try {
                       r.c->remove_all_entries_in_section_but_one(a.key, a.sec);
                     } catch (const std::invalid_argument &) {
                       throw Error{"keep"};
                     }
                     return std::string();
                   }});
  ops.push_back({"move", [](Model &) { return std::string(); },
                 [](Real &r) {
                   r.c = std::make_unique<Configuration>(std::move(*r.c));
                   return std::string();
                 }});
  ops.push_back({"move assign", [](Model &) { return std::string(); },
                 [](Real &r) {
                   std::unique_ptr<Configuration> n(new Configuration("", Configuration::InitializeFromYAMLString));
                   *n = std::move(*r.c);
                   r.c = std::move(n);
                   return std::string();
                 }});
  using VI = std::vector<int>;
  add_read("int=7", kd({"A"}, 7));
  add_read("int", km({"A", "B"}));
  add_read("string", K<std::string>{{"A", "B"}, std::nullopt, false, Key<std::string>{{"A", "B"}, kV}});
  add_read("vector", K<VI>{{"A", "C"}, std::nullopt, false, Key<VI>{{"A", "C"}, kV}});
  add_read("map", K<M>{{"A"}, std::nullopt, false, Key<M>{{"A"}, kV}});
  add_read("map", K<M>{{"A", "B"}, M{{"d", 4}}, false, Key<M>{{"A", "B"}, M{{"d", 4}}, kV}});
  add_read("int", km({"A", "B", "D"}));
  add_read("int=2", kd({"E"}, 2));
}

/// full comparison of the current state
std::string compare(Model &m, Real &r) {
  T t = from_yaml(YAML::Load(r.c->to_string()));
  T want = m.root;
  if (t.kind == T::Null) t.kind = T::Map;
  if (want.kind == T::Null) want.kind = T::Map;
  if (!(t == want))
    return "content " + t.str() + " instead of " + want.str();
  if (r.c->is_empty() != want.m.empty()) return "is_empty wrong";
  std::set<std::string> up;
  for (auto &s : r.c->list_upmost_nodes()) up.insert(s);
  std::set<std::string> mu;
  for (auto &x : want.m) mu.insert(x.first);
  if (up != mu) return "list of upmost nodes wrong";
  for (auto &p : kPaths) {
    T *n = at(m.root, p);
    Key<int> key{p, kV};
    const bool hk = n && n->kind != T::Map, hv = hk && n->kind != T::Null, hs = n && n->kind == T::Map;
    if (r.c->has_key(key) != hk) return "has_key " + path_str(p);
    if (r.c->has_value(key) != hv) return "has_value " + path_str(p);
    if (r.c->has_section(p) != hs) return "has_section " + path_str(p);
  }
  for (size_t i = 0; i < readers_m.size(); i++) {
    std::string a, b;
    try {
      a = readers_m[i](m);
    } catch (Error &e) {
      a = "!" + e.kind;
    }
    try {
      b = readers_r[i](r);
    } catch (Error &e) {
      b = "!" + e.kind;
    }
    if (a != b) return readers_n[i] + " gives " + b + " instead of " + a;
  }
  if (from_yaml(YAML::Load(r.c->to_string())).str() != t.str() && !want.m.empty())
    return "reading changed the content";
  return "";
}
const char *kStart[] = {"", "A: 1", "A: {B: 2}", "A: {B: {D: 3}, C: [4, 5]}", "{A: {B: text, C: -6}, E: 7}",
                        "E: ", "{A: {B: {}}, E: {}}", "X: {A: 8, Y: {A: {B: 9}}}", "{A: {B: -1}, E: [10, x]}"};

struct Run {
  Model m;
  Real r;
  bool dead = false;
};
std::string start(Run &run, int s) {
  run.m.root = from_yaml(YAML::Load(kStart[s]));
  run.r.c.reset(new Configuration(kStart[s], Configuration::InitializeFromYAMLString));
  // merging empty maps into the empty configuration leaves nothing
  T e;
  e.kind = T::Map;
  run.m.root = run.m.root.kind == T::Map ? merge(e, run.m.root) : e;
  return "";
}
/// one operation; returns problem. dead: state after a failed operation that
/// is not specified further.
std::string step(Run &run, int o) {
  std::string a, b;
  // nothing is ever added to the result of extracting a missing section
  if (run.m.hollow && (ops[o].name[0] == 's' || ops[o].name.rfind("merge", 0) == 0)) {
    run.dead = true;
    return "";
  }
  try {
    a = ops[o].model(run.m);
  } catch (Error &e) {
    a = "!" + e.kind;
  }
  try {
    b = ops[o].real(run.r);
  } catch (Error &e) {
    b = "!" + e.kind;
  } catch (const std::exception &e) {
    b = std::string("unexpected exception ") + e.what();
  }
  mc::transition();
  if (a != b) return "gives '" + b + "' instead of '" + a + "'";
  if (a == "!set" || a == "!merge")
    run.dead = true;  // conflicting structure: the run ends with this error
  return "";
}
std::string finish(Run &run) {
  // destruction complains exactly if something is left
  bool threw = false;
  const bool left = !run.m.root.m.empty();
  Configuration *c = run.r.c.release();
  try {
    delete c;
  } catch (const std::logic_error &) {
    threw = true;
  }
  if (threw != left) return left ? "unused keys are not reported" : "an empty configuration is reported as unused";
  return "";
}
void sequences(int depth) {
  uint64_t idx = 0;
  const int n = int(ops.size());
  std::function<void(std::vector<int> &, int)> rec = [&](std::vector<int> &seq, int s) {
    if (int(seq.size()) == depth || mc::too_many()) return;
    for (int o = 0; o < n; o++) {
      if (seq.empty() && !mc::mine(idx++)) continue;
      seq.push_back(o);
      Run run;
      start(run, s);
      std::string err, what = std::string("start '") + kStart[s] + "'";
      for (int k : seq) what += "; " + ops[k].name;
      mc::cur(what);
      mc::trace();
      for (size_t i = 0; i < seq.size() && err.empty() && !run.dead; i++)
        err = step(run, seq[i]);
      if (!run.dead && err.empty()) {
        err = compare(run.m, run.r);
        mc::state(run.m.str());
      }
      mc::eval();
      const bool dead = run.dead;
      if (err.empty() && !dead)
        err = finish(run);
      else
        run.r.c->clear();
      if (!err.empty())
        mc::viol(what, err);
      if (!dead && err.empty()) rec(seq, s);
      seq.pop_back();
    }
  };
  for (int s = 0; s < int(std::size(kStart)); s++) {
    std::vector<int> seq;
    rec(seq, s);
  }
}
/// breadth-first over distinct states, replaying the shortest history
void states(int depth, size_t cap) {
  std::set<std::string> seen;
  struct Q { int s; std::vector<int> seq; };
  std::vector<Q> level;
  for (int s = 0; s < int(std::size(kStart)); s++) level.push_back({s, {}});
  uint64_t idx = 0;
  for (int d = 0; d < depth; d++) {
    std::vector<Q> next;
    for (auto &q : level)
      for (int o = 0; o < int(ops.size()); o++) {
        // the model alone decides which states are new (all shards agree)
        Model m;
        {
          Run run;
          m.root = from_yaml(YAML::Load(kStart[q.s]));
          T e;
          e.kind = T::Map;
          m.root = m.root.kind == T::Map ? merge(e, m.root) : e;
        }
        bool dead = false;
        auto apply = [&](int k) {
          try {
            ops[k].model(m);
          } catch (Error &e) {
            dead |= e.kind == "set" || e.kind == "merge";
          }
        };
        for (int k : q.seq) apply(k);
        apply(o);
        const bool fresh = !dead && m.root.str().size() < 60 && seen.insert(m.str()).second;
        if (fresh && next.size() < cap) {
          next.push_back(q);
          next.back().seq.push_back(o);
        } else if (fresh) {
          mc::extra("states_not_expanded");
        }
        if (!mc::mine(idx++) || mc::too_many()) continue;
        Run run;
        start(run, q.s);
        std::string err, what = std::string("start '") + kStart[q.s] + "'";
        for (int k : q.seq) what += "; " + ops[k].name;
        what += "; " + ops[o].name;
        mc::cur(what);
        mc::trace();
        for (int k : q.seq)
          if (err.empty()) err = step(run, k);
        if (err.empty()) err = step(run, o);
        if (!run.dead && err.empty()) {
          err = compare(run.m, run.r);
          mc::state(run.m.str());
        }
        mc::eval();
        if (err.empty() && !run.dead)
          err = finish(run);
        else
          run.r.c->clear();
        if (!err.empty()) mc::viol(what, err);
      }
    level = next;
  }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  setup();
  sequences(mc::thorough() ? 3 : 2);
  states(mc::thorough() ? 6 : 4, mc::thorough() ? 3000 : 500);
  mc::sample("start 'A: {B: 2}'; take int A:B; set 5 A:B:D; extract A");
  return mc::finish();
}
