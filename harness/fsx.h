// Scratch directory handling and an independent file system observer (system calls only) for the P* checks.
#pragma once
#include "vh.h"
#include <dirent.h>
#include <map>
#include <sys/resource.h>
namespace fsx {
using namespace vh;
// Independent recursive delete, by descriptors, never following links.
inline void wipe_at(int dfd, char const *name) {
  struct stat s; if (fstatat(dfd, name, &s, AT_SYMLINK_NOFOLLOW) != 0) return;
  if (!S_ISDIR(s.st_mode)) { unlinkat(dfd, name, 0); return; }
  fchmodat(dfd, name, 0700, 0);
  int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC); if (fd < 0) return;
  if (DIR *d = fdopendir(fd)) { std::vector<std::string> n; while (auto e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name); for (auto &x : n) wipe_at(fd, x.c_str()); closedir(d); }
  unlinkat(dfd, name, AT_REMOVEDIR);
}
// The scratch root of this process.
inline int root_fd() {
  static int fd = [] { if (geteuid() == 0) { fprintf(stderr, "refusing to run file operations as root\n"); exit(3); } if (S().scratch.empty()) { fprintf(stderr, "no scratch directory\n"); exit(3); } int f = open(S().scratch.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC); if (f < 0) { perror("scratch"); exit(3); } return f; }();
  return fd;
}
// One directory per case, current directory while alive, wiped at the end.
struct Case {
  std::string name, abs; int fd;
  Case() {
    name = "c" + std::to_string(S().idx); wipe_at(root_fd(), name.c_str());
    if (mkdirat(root_fd(), name.c_str(), 0700)) { perror("case dir"); exit(3); }
    fd = openat(root_fd(), name.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC); if (fd < 0 || fchdir(fd)) { perror("case dir"); exit(3); }
    abs = S().scratch + "/" + name;
  }
  ~Case() { rlimit rl; getrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_FSIZE, &rl); if (fchdir(root_fd())) {} close(fd); wipe_at(root_fd(), name.c_str()); }
};
struct Node { mode_t mode = 0; ino_t ino = 0; nlink_t nlink = 0; std::string data; i64 mt = 0; bool operator==(Node const &o) const { return mode == o.mode && ino == o.ino && data == o.data; } };
using Snap = std::map<std::string, Node>;
inline std::string slurp_fd(int fd) { std::string r; char b[65536]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) r.append(b, k); return r; }
inline void snap_at(int dfd, std::string const &pfx, Snap &out) {
  int d2 = openat(dfd, ".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  DIR *d = d2 >= 0 ? fdopendir(d2) : nullptr; if (!d) return;
  std::vector<std::string> n; while (auto e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
  for (auto &x : n) {
    struct stat s; if (fstatat(dfd, x.c_str(), &s, AT_SYMLINK_NOFOLLOW)) continue;
    Node nd; nd.mode = s.st_mode; nd.ino = s.st_ino; nd.nlink = s.st_nlink; nd.mt = s.st_mtim.tv_sec * 1000000000ll + s.st_mtim.tv_nsec;
    std::string p = pfx.empty() ? x : pfx + "/" + x;
    if (S_ISLNK(s.st_mode)) { char b[4096]; ssize_t k = readlinkat(dfd, x.c_str(), b, sizeof b); if (k > 0) nd.data.assign(b, k); }
    else if (S_ISREG(s.st_mode)) { // look inside whatever the permissions.
      int f = openat(dfd, x.c_str(), O_RDONLY | O_CLOEXEC | O_NOFOLLOW);
      if (f < 0) { fchmodat(dfd, x.c_str(), 0600, 0); f = openat(dfd, x.c_str(), O_RDONLY | O_CLOEXEC | O_NOFOLLOW); fchmodat(dfd, x.c_str(), s.st_mode & 07777, 0); }
      if (f >= 0) { nd.data = slurp_fd(f); close(f); }
    }
    out[p] = nd;
    if (S_ISDIR(s.st_mode)) {
      int f = openat(dfd, x.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC | O_NOFOLLOW);
      bool ch = (s.st_mode & 0700) != 0700;
      if (ch) { if (f >= 0) close(f); fchmodat(dfd, x.c_str(), 0700, 0); f = openat(dfd, x.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC | O_NOFOLLOW); }
      if (f >= 0) { snap_at(f, p, out); close(f); }
      if (ch) fchmodat(dfd, x.c_str(), s.st_mode & 07777, 0);
    }
  }
  closedir(d);
}
inline Snap snap(int dfd) { Snap s; snap_at(dfd, "", s); return s; }
inline void put(int dfd, std::string const &p, std::string_view data, mode_t m = 0600) {
  int f = openat(dfd, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); if (f < 0) { fprintf(stderr, "put %s: %s\n", p.c_str(), strerror(errno)); exit(3); }
  while (!data.empty()) { ssize_t k = write(f, data.data(), data.size()); if (k <= 0) exit(3); data.remove_prefix(k); }
  fchmod(f, m); close(f);
}
// number of open descriptors of this process.
inline int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
// the sanitizer's background thread opens descriptors of its own for a moment.
inline void same_fds(int want, std::string const &ctx) { int n = 0; for (int i = 0; i < 50; ++i) { n = open_fds(); if (n <= want) return; usleep(2000); } fail("descriptor-leak", "%s: %d descriptors, were %d", ctx.c_str(), n, want); }
inline std::string blob(Rng &r, size_t n) { std::string s(n, 0); u64 x = r.u(); for (auto &c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = char(x >> 56); } return s; }
} // namespace fsx
