// Controlled execution of real processes at system-call granularity: every
// process is a forked child of the harness that is stopped in front of each
// system call that touches the watched directory.  The harness decides which
// process goes on (all interleavings), where one dies (all crash points,
// including writes of which only a part reaches the file) and which call fails
// (fault injection).
#pragma once
#include <signal.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>
#include <functional>
#include <string>

#include "mc.h"

namespace mc {

struct SysEvent {
  bool exited = false;  ///< the process is gone (status valid)
  int status = 0;       ///< wait status
  long nr = -1;
  std::string name, path;
  uint64_t len = 0;  ///< bytes to be written
  std::string str() const {
    if (exited)
      return fmt("exit(%d)", status);
    return name + "(" + path + (len ? fmt(",%llu", (unsigned long long)len)
                                    : std::string()) + ")";
  }
};

class Traced {
 public:
  /// Start `body` in a child stopped before its first watched system call.
  Traced(const std::string &dir, const std::function<int()> &body)
      : dir_(dir) {
    fflush(stdout);
    fflush(stderr);
    pid_ = fork();
    if (pid_ == 0) {
      ptrace(PTRACE_TRACEME, 0, nullptr, nullptr);
      raise(SIGSTOP);
      int rc = 97;
      try {
        rc = body();
      } catch (const std::exception &e) {
        fprintf(stderr, "process under control: %s\n", e.what());
        rc = 96;
      } catch (...) {
        rc = 96;
      }
      _exit(rc);
    }
    int st;
    waitpid(pid_, &st, 0);
    if (!WIFSTOPPED(st) ||
        ptrace(PTRACE_SETOPTIONS, pid_, nullptr,
               PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL) != 0)
      throw std::runtime_error("ptrace is not available");
    advance();
  }
  Traced(const Traced &) = delete;
  ~Traced() { kill(); }

  bool running() const { return !ev_.exited; }
  const SysEvent &pending() const { return ev_; }
  uint64_t steps() const { return steps_; }

  /// Let the pending call happen and run to the next one (or the end).
  const SysEvent &step() {
    if (!ev_.exited) {
      steps_++;
      advance();
    }
    return ev_;
  }
  /// Let the pending call fail with `err` instead.
  const SysEvent &step_error(int err) {
    user_regs_struct r;
    ptrace(PTRACE_GETREGS, pid_, nullptr, &r);
    r.orig_rax = -1;
    ptrace(PTRACE_SETREGS, pid_, nullptr, &r);
    if (!to_stop()) return ev_;
    in_syscall_ = false;
    ptrace(PTRACE_GETREGS, pid_, nullptr, &r);
    r.rax = -err;
    ptrace(PTRACE_SETREGS, pid_, nullptr, &r);
    steps_++;
    advance();
    return ev_;
  }
  /// The process dies now; of a pending write `n` bytes still reach the file.
  void crash(uint64_t n = 0) {
    if (ev_.exited)
      return;
    if (n > 0) {
      user_regs_struct r;
      ptrace(PTRACE_GETREGS, pid_, nullptr, &r);
      if (r.orig_rax == SYS_writev) {
        // the pieces in order, until n bytes are there
        struct iovec v[16];
        const size_t cnt = std::min<size_t>(r.rdx, 16);
        peek(r.rsi, v, cnt * sizeof v[0]);
        size_t left = n, used = 0;
        for (; used < cnt && left > 0; used++) {
          v[used].iov_len = std::min<size_t>(v[used].iov_len, left);
          left -= v[used].iov_len;
        }
        poke(r.rsi, v, used * sizeof v[0]);
        r.rdx = used;
      } else {
        r.rdx = n;
      }
      ptrace(PTRACE_SETREGS, pid_, nullptr, &r);
      to_stop();
    }
    kill();
  }
  void kill() {
    if (pid_ > 0 && !reaped_) {
      ::kill(pid_, SIGKILL);
      int st;
      waitpid(pid_, &st, 0);
      reaped_ = true;
      ev_ = SysEvent();
      ev_.exited = true;
      ev_.status = st;
    }
  }
  bool ok() const { return ev_.exited && WIFEXITED(ev_.status); }
  int code() const { return ok() ? WEXITSTATUS(ev_.status) : -1; }

 private:
  void peek(unsigned long addr, void *to, size_t n) {
    struct iovec l = {to, n}, r = {reinterpret_cast<void *>(addr), n};
    if (process_vm_readv(pid_, &l, 1, &r, 1, 0) ==
        static_cast<ssize_t>(n))
      return;
    for (size_t i = 0; i < n; i += 8) {
      errno = 0;
      const long w = ptrace(PTRACE_PEEKDATA, pid_, addr + i, nullptr);
      memcpy(static_cast<char *>(to) + i, &w, std::min<size_t>(8, n - i));
    }
  }
  void poke(unsigned long addr, const void *from, size_t n) {
    for (size_t i = 0; i + 8 <= n; i += 8) {
      long w;
      memcpy(&w, static_cast<const char *>(from) + i, 8);
      ptrace(PTRACE_POKEDATA, pid_, addr + i, w);
    }
  }
  std::string cstring(unsigned long addr) {
    std::string s;
    while (s.size() < 4096) {
      errno = 0;
      const long w = ptrace(PTRACE_PEEKDATA, pid_, addr + s.size(), nullptr);
      if (errno)
        break;
      char c[8];
      memcpy(c, &w, 8);
      for (int i = 0; i < 8; i++) {
        if (!c[i])
          return s;
        s += c[i];
      }
    }
    return s;
  }
  std::string fd_path(int fd) {
    char b[4096];
    const ssize_t n = readlink(fmt("/proc/%d/fd/%d", pid_, fd).c_str(), b,
                               sizeof b - 1);
    return n > 0 ? std::string(b, n) : std::string();
  }
  bool to_stop() {
    int sig = 0;
    for (;;) {
      ptrace(PTRACE_SYSCALL, pid_, nullptr, sig);
      int st;
      if (waitpid(pid_, &st, 0) != pid_ || WIFEXITED(st) || WIFSIGNALED(st)) {
        reaped_ = true;
        ev_ = SysEvent();
        ev_.exited = true;
        ev_.status = st;
        return false;
      }
      if (WIFSTOPPED(st) && WSTOPSIG(st) == (SIGTRAP | 0x80))
        return true;
      sig = WIFSTOPPED(st) ? WSTOPSIG(st) : 0;
    }
  }
  void advance() {
    for (;;) {
      if (!to_stop())
        return;
      in_syscall_ = !in_syscall_;
      if (!in_syscall_)
        continue;
      user_regs_struct r;
      ptrace(PTRACE_GETREGS, pid_, nullptr, &r);
      SysEvent e;
      e.nr = r.orig_rax;
      switch (e.nr) {
        case SYS_open: e.name = "open"; e.path = cstring(r.rdi); break;
        case SYS_creat: e.name = "creat"; e.path = cstring(r.rdi); break;
        case SYS_openat: e.name = "open"; e.path = cstring(r.rsi); break;
        case SYS_unlink: e.name = "unlink"; e.path = cstring(r.rdi); break;
        case SYS_unlinkat: e.name = "unlink"; e.path = cstring(r.rsi); break;
        case SYS_rename: e.name = "rename"; e.path = cstring(r.rdi); break;
        case SYS_renameat:
        case SYS_renameat2: e.name = "rename"; e.path = cstring(r.rsi); break;
        case SYS_link: e.name = "link"; e.path = cstring(r.rsi); break;
        case SYS_linkat: e.name = "link"; e.path = cstring(r.r10); break;
        case SYS_symlink: e.name = "symlink"; e.path = cstring(r.rsi); break;
        case SYS_mkdir: e.name = "mkdir"; e.path = cstring(r.rdi); break;
        case SYS_mkdirat: e.name = "mkdir"; e.path = cstring(r.rsi); break;
        case SYS_rmdir: e.name = "rmdir"; e.path = cstring(r.rdi); break;
        case SYS_stat:
        case SYS_lstat: e.name = "stat"; e.path = cstring(r.rdi); break;
        case SYS_newfstatat:
          e.name = "stat";
          e.path = cstring(r.rsi);
          break;
        case SYS_statx: e.name = "stat"; e.path = cstring(r.rsi); break;
        case SYS_access: e.name = "access"; e.path = cstring(r.rdi); break;
        case SYS_faccessat:
        case 439: e.name = "access"; e.path = cstring(r.rsi); break;
        case SYS_truncate: e.name = "truncate"; e.path = cstring(r.rdi); break;
        case SYS_write:
        case SYS_pwrite64:
          e.name = "write";
          e.path = fd_path(r.rdi);
          e.len = r.rdx;
          break;
        case SYS_writev: {
          e.name = "write";
          e.path = fd_path(r.rdi);
          struct iovec v[16];
          const size_t cnt = std::min<size_t>(r.rdx, 16);
          peek(r.rsi, v, cnt * sizeof v[0]);
          for (size_t i = 0; i < cnt; i++)
            e.len += v[i].iov_len;
          break;
        }
        case SYS_read:
        case SYS_pread64:
        case SYS_readv: e.name = "read"; e.path = fd_path(r.rdi); break;
        case SYS_close: e.name = "close"; e.path = fd_path(r.rdi); break;
        case SYS_ftruncate: e.name = "ftruncate"; e.path = fd_path(r.rdi); break;
        case SYS_flock: e.name = "flock"; e.path = fd_path(r.rdi); break;
        case SYS_fcntl: e.name = "fcntl"; e.path = fd_path(r.rdi); break;
        case SYS_fsync:
        case SYS_fdatasync: e.name = "fsync"; e.path = fd_path(r.rdi); break;
        default: continue;
      }
      if (e.path.compare(0, dir_.size(), dir_) != 0)
        continue;
      ev_ = e;
      return;
    }
  }

  std::string dir_;
  pid_t pid_ = -1;
  bool in_syscall_ = false, reaped_ = false;
  uint64_t steps_ = 0;
  SysEvent ev_;
};

/// Memory shared between the harness and its children.
template <typename T>
T *shared() {
  void *p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
    throw std::runtime_error("mmap failed");
  return new (p) T();
}

/// An empty directory below the scratch directory of this shard.
inline std::string fresh_dir(const std::string &name) {
  const std::string d = G().scratch + "/" + name;
  std::filesystem::remove_all(d);
  std::filesystem::create_directories(d);
  return std::filesystem::canonical(d).string();
}
}  // namespace mc
