// Shared machinery of the model-checking harnesses: bounded exhaustive
// exploration of choice trees / state graphs over the real SMASH code, with
// coverage counters, violation records and a "current case" that survives a
// crash of the harness (written to a shared mapping read by tools/run.py).
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Global {
  std::string tier = "quick", out, cur_file, scratch = "/tmp", only;
  int shard = 0, nshards = 1;
  uint64_t states = 0, transitions = 0, traces = 0, evaluations = 0;
  std::map<std::string, uint64_t> extra;
  std::vector<std::string> samples;
  std::map<std::string, std::pair<std::string, uint64_t>> viol;  // key->msg,n
  std::unordered_set<uint64_t> seen;
  std::set<std::string> notes;
  bool capped = false;
  char *cur = nullptr;
};
inline Global &G() {
  static Global g;
  return g;
}
constexpr size_t kCurSize = 1 << 16;

inline bool thorough() { return G().tier == "thorough"; }
/// Pick a bound by tier.
template <typename T>
T bound(T quick, T deep) {
  return thorough() ? deep : quick;
}

inline std::string fmt(const char *f, ...) {
  char buf[8192];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

/// Record the case being executed (reported if the process dies).
inline void cur(const std::string &s) {
  if (G().cur) {
    const size_t n = std::min(s.size(), kCurSize - 1);
    memcpy(G().cur, s.data(), n);
    G().cur[n] = 0;
  }
}

inline void init(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) {
    const std::string a = argv[i], v = argv[i + 1];
    if (a == "--tier")
      G().tier = v;
    else if (a == "--out")
      G().out = v;
    else if (a == "--cur")
      G().cur_file = v;
    else if (a == "--scratch")
      G().scratch = v;
    else if (a == "--only")
      G().only = v;
    else if (a == "--shard")
      sscanf(v.c_str(), "%d/%d", &G().shard, &G().nshards);
  }
  if (!G().cur_file.empty()) {
    int fd = open(G().cur_file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 && ftruncate(fd, kCurSize) == 0) {
      void *p = mmap(nullptr, kCurSize, PROT_READ | PROT_WRITE, MAP_SHARED,
                     fd, 0);
      G().cur = p == MAP_FAILED ? nullptr : static_cast<char *>(p);
    }
    if (fd >= 0)
      close(fd);
  }
}

/// Does top-level case number i belong to this shard?
inline bool mine(uint64_t i) {
  return i % G().nshards == static_cast<uint64_t>(G().shard);
}

inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603u) {
  auto b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++)
    h = (h ^ b[i]) * 1099511628211u;
  h ^= h >> 29;
  return h * 0x9E3779B97F4A7C15u;
}
inline uint64_t hash(const std::string &s) { return hash(s.data(), s.size()); }

/// Count a state once (canonical form given by the caller). True if new.
inline bool state(const std::string &canon) {
  const bool fresh = G().seen.insert(hash(canon)).second;
  if (fresh)
    G().states++;
  return fresh;
}
inline void transition(uint64_t n = 1) { G().transitions += n; }
inline void trace(uint64_t n = 1) { G().traces += n; }
inline void eval(uint64_t n = 1) { G().evaluations += n; }
inline void extra(const std::string &k, uint64_t n = 1) { G().extra[k] += n; }
inline void note(const std::string &s) { G().notes.insert(s); }
inline void sample(const std::string &s) {
  if (G().samples.size() < 6)
    G().samples.push_back(s.substr(0, 600));
}
/// Record a violation. `key` identifies the failing input/history.
inline void viol(const std::string &key, const std::string &msg) {
  auto &v = G().viol[key.substr(0, 300)];
  if (v.second++ == 0)
    v.first = msg.substr(0, 4000);
}
inline bool too_many() { return G().viol.size() > 40; }

inline std::string json(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f) {
      o += fmt("\\u%04x", c);
    } else {
      o += c;
    }
  }
  return o + "\"";
}

/// Serialize results (called at the end, or from a forked child).
inline std::string dump() {
  auto &g = G();
  std::string o = fmt(
      "{\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,"
      "\"evaluations\":%llu,\"capped\":%s,",
      (unsigned long long)g.states, (unsigned long long)g.transitions,
      (unsigned long long)g.traces, (unsigned long long)g.evaluations,
      g.capped ? "true" : "false");
  o += "\"extra\":{";
  bool first = true;
  for (auto &e : g.extra) {
    o += (first ? "" : ",") + json(e.first) + ":" + std::to_string(e.second);
    first = false;
  }
  o += "},\"samples\":[";
  for (size_t i = 0; i < g.samples.size(); i++)
    o += (i ? "," : "") + json(g.samples[i]);
  o += "],\"notes\":[";
  first = true;
  for (auto &e : g.notes) {
    o += (first ? "" : ",") + json(e);
    first = false;
  }
  o += "],\"violations\":[";
  first = true;
  for (auto &v : g.viol) {
    o += (first ? "" : ",") + std::string("{\"key\":") + json(v.first) +
         ",\"msg\":" + json(v.second.first) +
         ",\"n\":" + std::to_string(v.second.second) + "}";
    first = false;
  }
  return o + "]}\n";
}

inline int finish() {
  cur("done");
  if (!G().out.empty()) {
    std::ofstream f(G().out, std::ios::app);
    f << dump();
  } else {
    fputs(dump().c_str(), stdout);
  }
  fflush(stdout);
  return 0;
}

/// Run `fn` in a forked child so that global state stays pristine; counters
/// and violations of the child are appended to the output file by the child.
/// A child that dies is a violation with the current case.
inline void isolated(const std::string &name, const std::function<void()> &fn,
                     unsigned timeout_s = 300) {
  fflush(stdout);
  fflush(stderr);
  const std::string c0 = name;
  cur(c0);
  pid_t pid = fork();
  if (pid == 0) {
    auto &g = G();
    g.states = g.transitions = g.traces = g.evaluations = 0;
    g.extra.clear();
    g.samples.clear();
    g.viol.clear();
    g.notes.clear();
    alarm(timeout_s);
    try {
      fn();
    } catch (const std::exception &e) {
      viol(name + ": exception", std::string("uncaught exception in ") +
                                     name + ": " + e.what());
    }
    if (!g.out.empty()) {
      std::ofstream f(g.out, std::ios::app);
      f << dump();
    } else {
      fputs(dump().c_str(), stdout);
    }
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    std::string c = G().cur ? G().cur : name.c_str();
    viol("crash:" + name,
         fmt("process died (%s %d) in case: ",
             WIFSIGNALED(st) ? "signal" : "exit",
             WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) +
             c);
  }
}

/// Depth-first enumeration of every sequence of choices a driver makes.
class Chooser {
 public:
  int operator()(int n) {
    if (pos_ == path_.size())
      path_.push_back({0, n});
    if (path_[pos_].second != n) {
      fprintf(stderr, "mc: nondeterministic replay (%d vs %d options)\n",
              path_[pos_].second, n);
      abort();
    }
    return path_[pos_++].first;
  }
  template <typename T>
  const T &of(const std::vector<T> &v) {
    return v[(*this)(static_cast<int>(v.size()))];
  }
  /// Prepare the next execution; false when the tree is exhausted.
  bool advance() {
    path_.resize(pos_);  // choices of a shorter execution
    while (!path_.empty() && path_.back().first + 1 >= path_.back().second)
      path_.pop_back();
    if (path_.empty())
      return false;
    path_.back().first++;
    pos_ = 0;
    return true;
  }
  void rewind() { pos_ = 0; }
  std::string str() const {
    std::string s;
    for (size_t i = 0; i < pos_ && i < path_.size(); i++)
      s += (i ? "," : "") + std::to_string(path_[i].first);
    return s;
  }

 private:
  std::vector<std::pair<int, int>> path_;
  size_t pos_ = 0;
};

/// Enumerate all executions of `body` (every combination of choices).
inline uint64_t explore(const std::function<void(Chooser &)> &body,
                        uint64_t cap = ~0ull) {
  Chooser c;
  uint64_t n = 0;
  do {
    c.rewind();
    body(c);
    n++;
    if (n >= cap) {
      G().capped = true;
      break;
    }
  } while (c.advance());
  return n;
}

inline bool close_to(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b))
    return false;
  return std::fabs(a - b) <= tol;
}
/// relative (to scale) comparison
inline bool rel_close(double a, double b, double rel, double abs_tol = 0) {
  if (std::isnan(a) || std::isnan(b))
    return false;
  return std::fabs(a - b) <=
         std::max(abs_tol, rel * std::max(std::fabs(a), std::fabs(b)));
}

}  // namespace mc
