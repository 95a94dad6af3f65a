// P02: file operations: exact effect, every error reported, nothing else touched. The observer (fsx.h) uses system calls only.
#include "fsx.h"
#include "swoc/swoc_file.h"
#include <dlfcn.h>
#include <thread>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
using namespace vh;
using fsx::Snap; using fsx::Case;
namespace sf = swoc::file;
using sf::path;

// ---- fault injection at the system call boundary, active only while a library call runs.
enum Op { READ, WRITE, UNLINK, RMDIR, MKDIR, OPENDIR, FTRUNC, FSTAT, LSTAT, OPEN, NOPS };
static char const *const OPN[] = {"read", "write", "unlink", "rmdir", "mkdir", "opendir", "ftruncate", "fstat", "lstat", "open"};
struct Fault {
  bool on = false; int op = -1; int nth = 0; int err = 0; int count = 0; bool fired = false; // one error
  bool shorts = false; u64 rng = 1; int eintr = 0; u64 nshort = 0, ncalls = 0;                // partial transfers / interruptions
  int closes[4096] = {}; bool logclose = false;
  bool hit(int o) { if (!on) return false; ++ncalls; if (o != op || ++count != nth) return false; fired = true; errno = err; return true; }
  size_t part(size_t n) { if (!on || !shorts || n < 2) return n; rng = mix64(rng + 1); switch (rng & 7) { case 0: ++nshort; return 1; case 1: case 2: ++nshort; return 1 + (rng >> 8) % n; default: return n; } }
  bool intr() { if (!on || !eintr) return false; rng = mix64(rng + 1); if (rng & 3) return false; --eintr; errno = EINTR; return true; }
};
static Fault F;
template <typename R, typename... A> static auto next(char const *n) { return reinterpret_cast<R (*)(A...)>(dlsym(RTLD_NEXT, n)); }
extern "C" {
ssize_t read(int fd, void *b, size_t n) { if (F.hit(READ) || F.intr()) return -1; return syscall(SYS_read, fd, b, F.part(n)); }
ssize_t write(int fd, void const *b, size_t n) { if (F.hit(WRITE) || F.intr()) return -1; return syscall(SYS_write, fd, b, F.part(n)); }
int unlink(char const *p) noexcept { if (F.hit(UNLINK)) return -1; return int(syscall(SYS_unlink, p)); }
int rmdir(char const *p) noexcept { if (F.hit(RMDIR)) return -1; return int(syscall(SYS_rmdir, p)); }
int mkdir(char const *p, mode_t m) noexcept { if (F.hit(MKDIR)) return -1; return int(syscall(SYS_mkdir, p, m)); }
int ftruncate(int fd, off_t n) noexcept { if (F.hit(FTRUNC)) return -1; return int(syscall(SYS_ftruncate, fd, n)); }
DIR *opendir(char const *p) { static auto f = next<DIR *, char const *>("opendir"); if (F.hit(OPENDIR)) return nullptr; return f(p); }
int fstat(int fd, struct stat *s) noexcept { if (F.hit(FSTAT)) return -1; return int(syscall(SYS_fstat, fd, s)); }
int lstat(char const *p, struct stat *s) noexcept { if (F.hit(LSTAT)) return -1; return int(syscall(SYS_lstat, p, s)); }
int open(char const *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } if (F.hit(OPEN)) return -1; return int(syscall(SYS_open, p, fl, m)); }
int close(int fd) { if (F.logclose && fd >= 0 && fd < 4096) ++F.closes[fd]; return int(syscall(SYS_close, fd)); }
}
static int const ERRS[] = {EIO, EACCES, ENOSPC, EROFS, EMFILE, ENOMEM, EPERM, EBUSY};
struct Armed { Armed() { F.on = true; } ~Armed() { F.on = false; } };
static void arm(Rng &r, bool faults) {
  F = Fault{}; F.rng = r.u();
  if (r.chance(1, 2)) { F.shorts = true; if (r.flip()) F.eintr = int(r.below(6)); }
  if (faults) { F.op = int(r.below(NOPS)); F.nth = int(1 + r.below(3)); F.err = ERRS[r.below(std::size(ERRS))]; }
}
// ---- the world: in/ is worked on, out/ is elsewhere and only reachable through links.
static std::error_code stale(Rng &r) { switch (r.below(3)) { case 0: return {}; case 1: return {ENOENT, std::system_category()}; default: return {int(1 + r.below(120)), r.flip() ? std::system_category() : std::generic_category()}; } }
struct World {
  Case c; std::vector<std::string> dirs{"in"}, all{"in"}; std::vector<std::string> files;
  explicit World(Rng &r, bool modes, size_t n) {
    ::mkdir("in", 0700); ::mkdir("out", 0700); ::mkdir("out/d", 0700); fsx::put(AT_FDCWD, "out/f", "outside"); fsx::put(AT_FDCWD, "out/d/g", "outside too"); (void)!symlink("f", "out/l");
    for (; n; --n) { std::string d = dirs[r.below(dirs.size())] + "/" + (r.chance(1, 12) ? std::string(1 + r.below(3), '.') + "x" : std::string(1, char('a' + r.below(8)))); if (r.chance(1, 40)) d += std::string(200, 'n');
      struct stat s; if (::lstat(d.c_str(), &s) == 0) continue;
      switch (r.below(9)) {
      case 0: case 1: case 2: ::mkdir(d.c_str(), 0700); dirs.push_back(d); break;
      case 3: case 4: fsx::put(AT_FDCWD, d, fsx::blob(r, r.chance(1, 6) ? r.pick({size_t(65535), size_t(65536), size_t(65537), size_t(200000)}) : r.below(300))); files.push_back(d); break;
      case 5: { std::string t; switch (r.below(7)) { case 0: t = c.abs + "/out"; break; case 1: t = c.abs + "/out/d"; break; case 2: t = c.abs + "/out/f"; break; case 3: t = "missing"; break; case 4: t = r.flip() ? "." : ".."; break; case 5: t = c.abs + "/" + all[r.below(all.size())]; break; case 6: t = d.substr(d.rfind('/') + 1); break; }
        (void)!symlink(t.c_str(), d.c_str()); break; }
      case 6: if (r.chance(1, 3)) ::mkfifo(d.c_str(), 0600); else if (r.flip()) mknod(d.c_str(), S_IFSOCK | 0600, 0); else fsx::put(AT_FDCWD, d, ""), files.push_back(d); break;
      case 7: if (!files.empty()) { if (::link(files[r.below(files.size())].c_str(), d.c_str()) == 0) files.push_back(d); } break;
      case 8: (void)!symlink((c.abs + "/out/f").c_str(), d.c_str()); break;
      }
      if (::lstat(d.c_str(), &s) == 0) all.push_back(d);
    }
    if (modes) for (size_t i = all.size(); i-- > 1;) if (r.chance(1, 6)) { struct stat s; if (::lstat(all[i].c_str(), &s) == 0 && !S_ISLNK(s.st_mode)) ::chmod(all[i].c_str(), r.pick({0, 0100, 0200, 0400, 0500, 0300, 0600, 0444, 0755})); }
  }
  Snap snap() { return fsx::snap(c.fd); }
  std::string pick(Rng &r) {
    std::string p = all[r.below(all.size())];
    switch (r.below(14)) {
    case 0: p += "/" + std::string(1, char('a' + r.below(8))); break;
    case 1: p = dirs[r.below(dirs.size())] + "/new" + char('0' + r.below(4)); break;
    case 2: p = c.abs + "/" + p; break;
    case 3: p = "./" + p; break;
    case 4: { size_t i = p.find('/'); if (i != p.npos) p.insert(i, "/"); break; }
    case 5: if (r.chance(1, 4)) p = ""; break;
    case 6: if (r.chance(1, 4)) p += "/" + std::string(r.flip() ? 256 : 5000, 'z'); break;
    case 7: p = dirs[r.below(dirs.size())] + "/../" + p; break;
    case 8: if (r.chance(1, 3)) p = "/" + std::string("nonexistent-root-entry"); break;
    }
    return p;
  }
};
static void untouched(Snap const &a, Snap const &b, std::string const &ctx, std::vector<std::string> const &except = {}, bool added = false) {
  auto ex = [&](std::string const &k) { return std::find(except.begin(), except.end(), k) != except.end(); };
  for (auto &[k, v] : a) { if (ex(k)) continue; auto s = b.find(k); CHECK(s != b.end(), "collateral", "%s: %s vanished", ctx.c_str(), k.c_str()); CHECK(s->second == v, "collateral", "%s: %s changed (mode %o -> %o, %zu -> %zu bytes)", ctx.c_str(), k.c_str(), v.mode, s->second.mode, v.data.size(), s->second.data.size()); }
  if (!added) for (auto &[k, v] : b) if (!ex(k)) CHECK(a.count(k), "collateral", "%s: %s appeared", ctx.c_str(), k.c_str());
}
static void report(std::error_code const &ec, std::string const &ctx) { obs(ctx); obs(u64(ec.value())); if (ec) EV("errors reported"); else EV("successes reported"); if (F.fired) EV("injected faults delivered"); if (F.nshort) EV("partial transfers"); }
// ---- one function per operation; each judges one call.
static void op_load(Rng &r, World &w, std::error_code &ec, std::string const &p, bool faults) {
  struct stat s; bool st = ::stat(p.c_str(), &s) == 0; if (st && !S_ISREG(s.st_mode) && !S_ISDIR(s.st_mode)) return; // reading a pipe blocks
  std::string want; int f = ::open(p.c_str(), O_RDONLY | O_CLOEXEC); bool readable = f >= 0 && st && S_ISREG(s.st_mode); if (readable) want = fsx::slurp_fd(f); if (f >= 0) ::close(f);
  auto before = w.snap(); int fds = fsx::open_fds(); arm(r, faults); std::string got; T("load %s", esc(p, 80).c_str());
  { Armed on; got = sf::load(path{std::string_view(p)}, ec); }
  std::string ctx = "load " + esc(p, 80);
  if (!F.fired) { CHECK(!ec == readable, "load-error", "%s: readable %d, error %s", ctx.c_str(), readable, ec.message().c_str()); }
  if (!ec) { CHECK(got.size() == want.size(), "load-bytes", "%s: %zu bytes, file has %zu (short reads %llu)", ctx.c_str(), got.size(), want.size(), (unsigned long long)F.nshort); CHECK(got == want, "load-bytes", "%s: bytes differ", ctx.c_str()); EV("bytes compared"); }
  fsx::same_fds(fds, ctx);
  untouched(before, w.snap(), ctx); report(ec, ctx);
}
static void op_copy(Rng &r, World &w, std::error_code &ec, std::string const &a, std::string const &b, bool faults) {
  struct stat sa, sb; bool ea = ::stat(a.c_str(), &sa) == 0; if (ea && !S_ISREG(sa.st_mode) && !S_ISDIR(sa.st_mode)) return;
  std::string want; int f = ::open(a.c_str(), O_RDONLY | O_CLOEXEC); bool src = f >= 0 && ea && S_ISREG(sa.st_mode); if (src) want = fsx::slurp_fd(f); if (f >= 0) ::close(f);
  std::string to = b; bool tostat = ::stat(b.c_str(), &sb) == 0; if (tostat && S_ISDIR(sb.st_mode)) { size_t k = a.rfind('/'); to = b + "/" + (k == a.npos ? a : a.substr(k + 1)); }
  bool et = ::stat(to.c_str(), &sb) == 0; if (et && !S_ISREG(sb.st_mode) && !S_ISDIR(sb.st_mode) && !S_ISCHR(sb.st_mode)) return; // opening a pipe blocks
  bool full = et && S_ISCHR(sb.st_mode); // device
  bool can = src; bool unsure = false;
  if (et) can = can && !S_ISDIR(sb.st_mode) && ::access(to.c_str(), W_OK) == 0 && !(full && to == "/dev/full" && !want.empty());
  else { struct stat l; size_t k = to.rfind('/'); std::string par = k == to.npos ? "." : to.substr(0, k ? k : 1); bool le = ::lstat(to.c_str(), &l) == 0; if (le) unsure = true; // dangling link: may be created through it
    can = can && !to.empty() && to.back() != '/' && to.size() - (k + 1) < 255 && to.size() < 4096 && ::access(par.c_str(), W_OK | X_OK) == 0 && ::stat(par.c_str(), &l) == 0 && S_ISDIR(l.st_mode); }
  if (a.empty() || b.empty()) can = false;
  auto before = w.snap(); int fds = fsx::open_fds(); std::string ctx = "copy " + esc(a, 80) + " onto " + esc(b, 80);
  bool limit = !faults && r.chance(1, 12); rlimit rl, old; getrlimit(RLIMIT_FSIZE, &old); size_t lim = 0;
  if (limit) { lim = want.empty() ? 0 : r.below(want.size() + 1); rl = old; rl.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &rl); signal(SIGXFSZ, SIG_IGN); }
  arm(r, faults); T("%s limit %d", ctx.c_str(), limit); bool ok;
  { Armed on; ok = sf::copy(path{std::string_view(a)}, path{std::string_view(b)}, ec); }
  if (limit) setrlimit(RLIMIT_FSIZE, &old);
  CHECK(ok == !ec, "copy-report", "%s: result %d, error %s", ctx.c_str(), ok, ec.message().c_str());
  if (!F.fired && !limit && !unsure) CHECK(ok == can, "copy-error", "%s: possible %d, result %d %s", ctx.c_str(), can, ok, ec.message().c_str());
  if (limit && lim < want.size() && !full) { CHECK(!ok, "copy-report", "%s: success with a file size limit of %zu for %zu bytes", ctx.c_str(), lim, want.size()); EV("size limit hit"); }
  if (full && to == "/dev/full" && !want.empty()) CHECK(!ok, "copy-report", "%s: success on a full device", ctx.c_str());
  auto after = w.snap(); std::vector<std::string> ex;
  struct stat sn; if (::stat(to.c_str(), &sn) == 0 && S_ISREG(sn.st_mode)) for (auto &[k, v] : after) if (v.ino == sn.st_ino && S_ISREG(v.mode)) { auto o = before.find(k); if (o != before.end()) { CHECK(o->second.mode == v.mode, "copy-mode", "%s: mode of existing target %s changed", ctx.c_str(), k.c_str()); if (src || F.fired) ex.push_back(k); } else if (src || F.fired) ex.push_back(k); }
  if (ok && !full) { int g = ::open(to.c_str(), O_RDONLY | O_CLOEXEC); bool rd = g >= 0; std::string got; struct stat st2; ::stat(to.c_str(), &st2);
    if (!rd) { for (auto &[k, v] : after) if (v.ino == st2.st_ino) { got = v.data; rd = true; } } else { got = fsx::slurp_fd(g); ::close(g); }
    if (rd) { CHECK(got.size() == want.size(), "copy-bytes", "%s: target has %zu bytes, source has %zu", ctx.c_str(), got.size(), want.size()); CHECK(got == want, "copy-bytes", "%s: target differs from source", ctx.c_str()); EV("copies compared"); } }
  // the source keeps its content, unless it is the target.
  untouched(before, after, ctx, ex); if (!F.fired) for (auto &k : ex) if (!before.count(k)) EV("files created by copy");
  fsx::same_fds(fds, ctx);
  report(ec, ctx);
}
static void op_mkdir(Rng &r, World &w, std::error_code &ec, std::string const &p, bool many, bool faults) {
  auto before = w.snap(); std::string ctx = std::string(many ? "create_directories " : "create_directory ") + esc(p, 80);
  mode_t mode = r.pick({0775, 0700, 0755, 0711, 0777, 0750}); bool dflt = r.flip(); if (dflt) mode = 0775; mode_t um = r.pick({0, 022, 077}); ::umask(um);
  // prediction by walking
  bool can = !p.empty(), unsure = false; struct stat s;
  if (can && many) { size_t i = 0; bool created = false; std::string pre;
    while (i <= p.size() && can) { size_t j = p.find('/', i); if (j == p.npos) j = p.size(); std::string comp = p.substr(i, j - i); pre = p.substr(0, j); i = j + 1; if (comp.empty()) continue;
      if (created) { if (comp == "..") unsure = true; if (comp.size() > 255 || p.size() > 4000) can = false; continue; }
      if (::stat(pre.c_str(), &s) == 0) { if (!S_ISDIR(s.st_mode)) can = false; continue; }
      if (errno != ENOENT || ::lstat(pre.c_str(), &s) == 0) { can = false; continue; }
      size_t k = pre.rfind('/'); std::string par = k == pre.npos ? "." : pre.substr(0, k ? k : 1); if (::access(par.c_str(), W_OK | X_OK)) can = false; else created = true; if (comp.size() > 255) can = false; }
    if ((mode & ~um & 0300) != 0300) unsure = true; }
  else if (can) { if (::stat(p.c_str(), &s) == 0) can = S_ISDIR(s.st_mode); else if (errno != ENOENT || ::lstat(p.c_str(), &s) == 0) can = false; else { std::string q = p; while (q.size() > 1 && q.back() == '/') q.pop_back(); size_t k = q.rfind('/'); std::string par = k == q.npos ? "." : q.substr(0, k ? k : 1); can = ::stat(par.c_str(), &s) == 0 && S_ISDIR(s.st_mode) && ::access(par.c_str(), W_OK | X_OK) == 0 && q.size() - (k + 1) <= 255; if (q.size() >= 3 && q.substr(q.size() - 3) == "/..") unsure = true; } }
  arm(r, faults); T("%s mode %o umask %o", ctx.c_str(), mode, um); bool ok; path pp{std::string_view(p)};
  { Armed on; ok = many ? (dflt ? sf::create_directories(pp, ec) : sf::create_directories(pp, ec, mode)) : (dflt ? sf::create_directory(pp, ec) : sf::create_directory(pp, ec, mode)); }
  ::umask(077);
  CHECK(ok == !ec, "mkdir-report", "%s: result %d, error %s", ctx.c_str(), ok, ec.message().c_str());
  bool isdir = ::stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); if (errno == EACCES && !isdir) isdir = ok && !many;
  if (!unsure) CHECK(!ok || isdir, "mkdir-effect", "%s: success but there is no such directory", ctx.c_str());
  if (!F.fired && !unsure) CHECK(ok == can, "mkdir-error", "%s: possible %d, result %d %s", ctx.c_str(), can, ok, ec.message().c_str());
  auto after = w.snap(); untouched(before, after, ctx, {}, true);
  // anything new is a directory which is a prefix of the path
  std::vector<ino_t> pre; for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') if (::stat(p.substr(0, i).c_str(), &s) == 0) pre.push_back(s.st_ino);
  size_t fresh = 0; for (auto &[k, v] : after) if (!before.count(k)) { ++fresh; CHECK(S_ISDIR(v.mode), "mkdir-extra", "%s: %s appeared", ctx.c_str(), k.c_str()); if (!unsure) CHECK(std::find(pre.begin(), pre.end(), v.ino) != pre.end(), "mkdir-extra", "%s: %s is not part of the path", ctx.c_str(), k.c_str()); CHECK((v.mode & 0777) == (mode & ~um), "mkdir-mode", "%s: mode %o, asked for %o with mask %o", ctx.c_str(), v.mode & 07777, mode, um); EV("directories created"); }
  CHECK(many || fresh <= 1, "mkdir-extra", "%s: %zu directories created", ctx.c_str(), fresh); obs(fresh); report(ec, ctx);
}
static std::string under(World &w, std::string const &p) { // name in the snapshot of the item p names (not following a final link), or empty
  struct stat s; if (::lstat(p.c_str(), &s)) return {}; size_t k = p.rfind('/'); std::string par = k == p.npos ? "." : p.substr(0, k ? k : 1), leaf = k == p.npos ? p : p.substr(k + 1);
  char b[PATH_MAX + 1]; if (!::realpath(par.c_str(), b)) return {}; std::string q = std::string(b) + "/" + leaf; char cb[PATH_MAX + 1]; if (!::realpath(w.c.abs.c_str(), cb)) return {}; std::string root = std::string(cb) + "/"; return q.compare(0, root.size(), root) == 0 ? q.substr(root.size()) : std::string();
}
static void op_remove(Rng &r, World &w, std::error_code &ec, std::string const &p, bool faults) {
  if (!p.empty() && (p.back() == '/' || p.back() == '.')) return;
  auto before = w.snap(); std::string name = under(w, p), ctx = "remove " + esc(p, 80); struct stat s; bool ex = ::lstat(p.c_str(), &s) == 0; bool can = ex, unsure = false;
  if (ex) { if (S_ISDIR(s.st_mode)) for (auto &[k, v] : before) if (k.compare(0, name.size() + 1, name + "/") == 0) can = false; if (S_ISFIFO(s.st_mode) || S_ISSOCK(s.st_mode)) unsure = true; size_t k = p.rfind('/'); if (::access(k == p.npos ? "." : p.substr(0, k ? k : 1).c_str(), W_OK | X_OK)) can = false; }
  arm(r, faults); T("%s", ctx.c_str()); bool ok; { Armed on; ok = sf::remove(path{std::string_view(p)}, ec); }
  CHECK(ok == !ec, "remove-report", "%s: result %d, error %s", ctx.c_str(), ok, ec.message().c_str());
  if (!F.fired && !unsure) CHECK(ok == can, "remove-error", "%s: possible %d, result %d %s", ctx.c_str(), can, ok, ec.message().c_str());
  auto after = w.snap(); bool gone = ex && !after.count(name); CHECK(ok == gone, "remove-effect", "%s: result %d but the item is %s", ctx.c_str(), ok, gone ? "gone" : "still there or never was");
  untouched(before, after, ctx, {name}); if (!gone && ex) CHECK(after[name] == before[name], "collateral", "%s: failed but changed the item", ctx.c_str()); if (gone) EV("items removed"); report(ec, ctx);
}
static void op_remove_all(Rng &r, World &w, std::error_code &ec, std::string const &p, bool faults) {
  if (!p.empty() && (p.back() == '/' || p.back() == '.')) return;
  auto before = w.snap(); std::string name = under(w, p), ctx = "remove_all " + esc(p, 80); struct stat s; bool ex = ::lstat(p.c_str(), &s) == 0; if (ex && name.empty()) return;
  bool clean = ex; size_t have = 0; auto in = [&](std::string const &k) { return k == name || k.compare(0, name.size() + 1, name + "/") == 0; };
  if (ex) { for (auto &[k, v] : before) if (in(k)) { ++have; if (S_ISDIR(v.mode) && (v.mode & 0700) != 0700) clean = false; } size_t k = p.rfind('/'); if (::access(k == p.npos ? "." : p.substr(0, k ? k : 1).c_str(), W_OK | X_OK)) clean = false; if (p.size() > 3000) clean = false; struct stat t; for (size_t i = 1; i < k && k != p.npos; ++i) if (p[i] == '/' || i + 1 == k) if (::lstat(p.substr(0, p[i] == '/' ? i : k).c_str(), &t) == 0 && S_ISLNK(t.st_mode)) clean = false; /* the way may be part of what is removed */ }
  int fds = fsx::open_fds(); arm(r, faults); T("%s items %zu", ctx.c_str(), have); uintmax_t n; { Armed on; n = sf::remove_all(path{std::string_view(p)}, ec); }
  auto after = w.snap(); size_t gone = 0, left = 0; std::vector<std::string> exc; for (auto &[k, v] : before) if (ex && in(k)) { exc.push_back(k); if (after.count(k)) { ++left; CHECK(after[k] == v, "collateral", "%s: %s changed", ctx.c_str(), k.c_str()); } else ++gone; }
  CHECK(n == gone, "remove-count", "%s: reported %ju items, %zu vanished of %zu", ctx.c_str(), n, gone, have);
  untouched(before, after, ctx, exc);
  if (ex) { CHECK(!ec == (left == 0), "remove-report", "%s: %zu items left, error %s", ctx.c_str(), left, ec.message().c_str()); if (!F.fired && clean) CHECK(!ec && left == 0, "remove-error", "%s: nothing prevents removal but: %s", ctx.c_str(), ec.message().c_str()); }
  if (p.empty()) CHECK(!!ec, "remove-report", "empty path removed");
  fsx::same_fds(fds, ctx);
  for (size_t i = 0; i < gone; ++i) EV("items removed recursively"); obs(n); report(ec, ctx);
}
static i64 ns(sf::file_time_type t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
static i64 ns(timespec const &t) { return t.tv_sec * 1000000000ll + t.tv_nsec; }
static void op_status(Rng &r, World &w, std::error_code &ec, std::string const &p) {
  (void)w; struct stat s; std::string ctx = "status " + esc(p, 80); T("%s", ctx.c_str());
  if (r.flip() && ::lstat(p.c_str(), &s) == 0) { auto nsec = [&] { return r.chance(1, 4) ? r.pick<long>({0, 1, 999999999, 999999998, 500000000}) : long(r.below(1000000000)); }; timespec ts[2] = {{time_t(r.below(2000000000)), nsec()}, {time_t(r.below(2000000000)), nsec()}}; utimensat(AT_FDCWD, p.c_str(), ts, 0); }
  F = Fault{}; path pp{std::string_view(p)}; bool ex = ::stat(p.c_str(), &s) == 0; int en = errno; auto fs = sf::status(pp, ec);
  CHECK(!ec == ex, "status-error", "%s: system says %d, error %s", ctx.c_str(), ex, ec.message().c_str()); obs(u64(ec.value()));
  using E = enum sf::file_type; E want = E::none;
  if (ex) { switch (s.st_mode & S_IFMT) { case S_IFREG: want = E::regular; break; case S_IFDIR: want = E::directory; break; case S_IFCHR: want = E::character; break; case S_IFBLK: want = E::block; break; case S_IFIFO: want = E::fifo; break; case S_IFSOCK: want = E::socket; break; default: want = E::unknown; } CHECK(fs.type() == want, "type", "%s: type %d expected %d", ctx.c_str(), int(fs.type()), int(want)); CHECK(fs.mode() == s.st_mode, "mode", "%s", ctx.c_str()); }
  else if (en == ENOENT) CHECK(fs.type() == E::not_found, "type", "%s: missing but type %d", ctx.c_str(), int(fs.type())); else CHECK(fs.type() == E::none || fs.type() == E::not_found, "type", "%s: inaccessible but type %d", ctx.c_str(), int(fs.type()));
  CHECK(exists(fs) == ex && sf::exists(pp) == ex, "exists", "%s: %d %d expected %d", ctx.c_str(), exists(fs), sf::exists(pp), ex);
  CHECK(is_regular_file(fs) == (ex && S_ISREG(s.st_mode)) && is_dir(fs) == (ex && S_ISDIR(s.st_mode)) && is_char_device(fs) == (ex && S_ISCHR(s.st_mode)) && is_block_device(fs) == (ex && S_ISBLK(s.st_mode)), "type", "%s: predicates", ctx.c_str());
  CHECK(file_size(fs) == (ex ? uintmax_t(s.st_size) : 0), "size", "%s: %ju", ctx.c_str(), file_size(fs));
  CHECK(ns(last_write_time(fs)) == (ex ? ns(s.st_mtim) : 0) && ns(access_time(fs)) == (ex ? ns(s.st_atim) : 0) && ns(status_time(fs)) == (ex ? ns(s.st_ctim) : 0), "times", "%s: %lld %lld %lld", ctx.c_str(), (long long)ns(last_write_time(fs)), (long long)ns(access_time(fs)), (long long)ns(status_time(fs)));
  if (ex) { CHECK(modify_time(fs) == last_write_time(fs), "times", "%s: modify_time", ctx.c_str()); CHECK(file_type(fs) == int(s.st_mode & S_IFMT), "type", "%s: raw type", ctx.c_str()); }
  std::error_code e2 = stale(r); auto t = sf::last_write_time(pp, e2); CHECK(!e2 == ex && (ex ? ns(t) == ns(s.st_mtim) : t == sf::file_time_type::min()), "times", "%s: last_write_time", ctx.c_str());
  CHECK(sf::is_readable(pp) == (::access(p.c_str(), R_OK) == 0), "readable", "%s", ctx.c_str());
  sf::file_status cp{fs}; CHECK(cp.type() == fs.type() && file_size(cp) == file_size(fs), "copy", "%s", ctx.c_str()); obs(ctx); obs(u64(fs.type())); obs(u64(file_size(fs))); EV("status queries");
}
static bool any_op(Rng &r, World &w, std::error_code &ec, bool faults) {
  std::string p = w.pick(r);
  switch (r.below(9)) {
  case 0: op_load(r, w, ec, p, faults); break;
  case 1: case 2: { std::string q = w.pick(r); if (r.chance(1, 12)) q = "/dev/full"; op_copy(r, w, ec, p, q, faults); break; }
  case 3: op_mkdir(r, w, ec, p, true, faults); break;
  case 4: op_mkdir(r, w, ec, p, false, faults); break;
  case 5: op_remove(r, w, ec, p, faults); break;
  case 6: op_remove_all(r, w, ec, p, faults); break;
  default: op_status(r, w, ec, p);
  }
  return true;
}
static void shuffle_ec(Rng &r, std::error_code &ec) { if (r.chance(2, 3)) ec = stale(r); }
SUB(loads, 5000, 120000, LEAK) { // contents and sizes
  World w(rng, false, 2); size_t n = rng.chance(1, 3) ? rng.pick({size_t(0), size_t(1), size_t(2), size_t(4095), size_t(4096), size_t(4097), size_t(8192), size_t(65536), size_t(65537), size_t(131072)}) : rng.chance(1, 20) ? rng.below(2000000) : rng.below(5000);
  fsx::put(AT_FDCWD, "in/file", fsx::blob(rng, n), rng.chance(1, 10) ? 0 : 0600); (void)!symlink("file", "in/link"); auto ec = stale(rng); T("size %zu", n);
  op_load(rng, w, ec, rng.pick({"in/file", "in/link", "./in//file"}), rng.chance(1, 3));
  if (rng.chance(1, 8)) { // files whose reported size is not their content
    static char const *P[] = {"/proc/version", "/proc/cpuinfo", "/proc/self/maps", "/proc/sys/kernel/ostype", "/dev/null", "/proc/filesystems"}; char const *p = P[rng.below(std::size(P))]; bool stable = strcmp(p, "/proc/self/maps") && strcmp(p, "/proc/cpuinfo");
    int f = ::open(p, O_RDONLY | O_CLOEXEC); if (f >= 0) { std::string want = fsx::slurp_fd(f); ::close(f); ec = stale(rng); F = Fault{}; auto got = sf::load(path{p}, ec); CHECK(!ec, "load-error", "%s: %s", p, ec.message().c_str()); if (stable) eq_text(got, want, "load-bytes", p); else CHECK(got.size() > want.size() / 2, "load-bytes", "%s: %zu bytes of about %zu", p, got.size(), want.size()); EV("files with unreported size"); obs(want.size()); } }
}
SUB(copies, 7000, 200000, LEAK) { // every kind of source and target
  World w(rng, rng.chance(1, 4), 3 + rng.below(6)); size_t n = rng.chance(1, 4) ? rng.pick({size_t(0), size_t(1), size_t(65535), size_t(65536), size_t(65537), size_t(131072), size_t(300001)}) : rng.below(3000), m = rng.chance(1, 3) ? rng.below(2 * n + 2) : rng.below(5000);
  fsx::put(AT_FDCWD, "in/src", fsx::blob(rng, n), rng.chance(1, 12) ? 0200 : 0600); fsx::put(AT_FDCWD, "in/dst", fsx::blob(rng, m), rng.chance(1, 12) ? 0400 : 0600); ::mkdir("in/dir", 0700); if (rng.flip()) fsx::put(AT_FDCWD, "in/dir/src", fsx::blob(rng, m)); (void)!::link("in/src", "in/hard"); (void)!symlink("src", "in/sl"); (void)!symlink("dst", "in/dl"); (void)!symlink("fresh", "in/dang"); (void)!symlink("dir", "in/dirl");
  static char const *A[] = {"in/src", "in/src", "in/src", "in/sl", "in/hard", "in/dir", "in/none", "in/dang", "in/dst", "", "in/src/x"}; static char const *B[] = {"in/dst", "in/dst", "in/dir", "in/dirl", "in/dl", "in/new", "in/src", "in/sl", "in/hard", "in/dang", "in/dir/", "in/none/x", "in/src/x", "", "/dev/full", "/dev/null", "in/dir/src", "out/f", "/no-such-place/f"};
  auto ec = stale(rng); std::string a = A[rng.below(std::size(A))], b = B[rng.below(std::size(B))]; if (rng.chance(1, 4)) a = w.pick(rng); if (rng.chance(1, 4)) b = w.pick(rng);
  op_copy(rng, w, ec, a, b, rng.chance(1, 4)); if (rng.flip()) { shuffle_ec(rng, ec); op_copy(rng, w, ec, a, B[rng.below(std::size(B))], false); }
}
SUB(mkdirs, 8000, 250000, LEAK) {
  World w(rng, rng.chance(1, 4), 2 + rng.below(8)); std::string p = rng.chance(1, 5) ? w.pick(rng) : w.dirs[rng.below(w.dirs.size())]; if (rng.chance(1, 6)) p = w.c.abs + "/" + p;
  for (u64 n = rng.below(5); n; --n) { p.append(rng.chance(1, 5) ? 1 + rng.below(3) : 1, '/'); p += rng.chance(1, 12) ? std::string(rng.flip() ? "." : "..") : rng.chance(1, 60) ? std::string(260, 'w') : std::string(1 + rng.below(2), char('a' + rng.below(10))); } if (rng.chance(1, 5)) p.append(1 + rng.below(2), '/');
  auto ec = stale(rng); bool many = rng.chance(2, 3); op_mkdir(rng, w, ec, p, many, rng.chance(1, 5)); if (rng.chance(1, 3)) { shuffle_ec(rng, ec); op_mkdir(rng, w, ec, p, true, false); }
}
SUB(removes, 7000, 250000, LEAK) {
  World w(rng, rng.chance(1, 4), 2 + rng.below(12)); auto ec = stale(rng); for (u64 n = 1 + rng.below(4); n; --n) { shuffle_ec(rng, ec); op_remove(rng, w, ec, w.pick(rng), rng.chance(1, 6)); }
}
SUB(removetrees, 8000, 250000, LEAK) {
  World w(rng, rng.chance(1, 4), 3 + rng.below(25)); auto ec = stale(rng); op_remove_all(rng, w, ec, rng.chance(1, 2) ? w.dirs[rng.below(w.dirs.size())] : w.pick(rng), rng.chance(1, 4));
  shuffle_ec(rng, ec); op_remove_all(rng, w, ec, rng.chance(1, 2) ? "in" : w.pick(rng), false);
}
SUB(bigtrees, 24, 300, 0) { // many entries in a directory, many levels
  World w(rng, false, 2); auto ec = stale(rng);
  if (rng.flip()) { size_t n = 200 + rng.below(3000); ::mkdir("in/wide", 0700); int d = ::open("in/wide", O_RDONLY | O_DIRECTORY); for (size_t i = 0; i < n; ++i) { std::string q = "f" + std::to_string(i); if (i % 7 == 0) ::mkdirat(d, q.c_str(), 0700); else if (i % 11 == 0) (void)!symlinkat("../../out", d, q.c_str()); else ::close(openat(d, q.c_str(), O_CREAT | O_WRONLY, 0600)); } ::close(d); op_remove_all(rng, w, ec, "in/wide", false); }
  else { std::string p = "in"; for (size_t n = 20 + rng.below(200); n; --n) { p += "/" + std::string(1 + rng.below(3), 'D'); ::mkdir(p.c_str(), 0700); if (rng.chance(1, 3)) fsx::put(AT_FDCWD, p + "/f", "x"); } op_remove_all(rng, w, ec, "in", false); }
}
SUB(statuses, 6000, 120000, LEAK) { World w(rng, rng.chance(1, 3), 4 + rng.below(12)); auto ec = stale(rng); for (int i = 0; i < 8; ++i) { shuffle_ec(rng, ec); op_status(rng, w, ec, rng.chance(1, 12) ? std::string(rng.pick({"/dev/null", "/dev/zero", "/", "/proc/self/exe"})) : w.pick(rng)); } }
SUB(history, 3000, 100000, LEAK) { // operation sequences on one tree, one error variable never cleared by the caller
  World w(rng, rng.chance(1, 3), 4 + rng.below(15)); auto ec = stale(rng); bool carry = rng.flip(); for (u64 n = 6 + rng.below(14); n; --n) { if (!carry) shuffle_ec(rng, ec); any_op(rng, w, ec, rng.chance(1, 6)); }
}
SUB(descriptors, 20000, 300000, LEAK) { // unique_fd: each owned descriptor is closed exactly once
  F = Fault{}; std::vector<int> owned; auto fresh = [] { int f = ::open("/dev/null", O_RDONLY | O_CLOEXEC); if (f < 0) exit(3); return f; };
  int base = fresh(); F.logclose = true; std::vector<std::unique_ptr<sf::unique_fd>> v; std::vector<int> mine; std::map<int, int> want; // closes expected
  auto real = [&](int f) { F.logclose = false; ::close(f); F.logclose = true; };
  for (u64 n = 1 + rng.below(12); n; --n) switch (rng.below(6)) {
    case 0: case 1: { int f = fresh(); v.emplace_back(new sf::unique_fd{f}); CHECK(int(*v.back()) == f, "fd-value", "%d", int(*v.back())); break; }
    case 2: if (!v.empty()) { auto &x = v[rng.below(v.size())]; int f = *x; v.emplace_back(new sf::unique_fd{std::move(*x)}); auto &y = v.back(); CHECK(int(*y) == f, "fd-move", "moved %d is %d", f, int(*y)); for (auto &z : v) if (z != y && int(*z) == f && f != sf::NO_FD) fail("fd-move", "source still owns %d", f); } break;
    case 3: if (!v.empty()) { size_t i = rng.below(v.size()); int f = *v[i]; v.erase(v.begin() + i); if (f != sf::NO_FD) { ++want[f]; } break; } break;
    case 4: if (!v.empty()) { auto &x = v[rng.below(v.size())]; int f = *x; int g = x->release(); CHECK(g == f && int(*x) == sf::NO_FD, "fd-release", "%d %d", f, g); if (f != sf::NO_FD) { CHECK(fcntl(f, F_GETFD) >= 0, "fd-release", "released descriptor %d was closed", f); real(f); } } break;
    case 5: v.emplace_back(new sf::unique_fd{sf::NO_FD}); break; }
  for (auto &x : v) if (int(*x) != sf::NO_FD) ++want[int(*x)]; v.clear(); F.logclose = false;
  for (int f = 0; f < 4096; ++f) { auto s = want.find(f); int e = s == want.end() ? 0 : s->second; CHECK(F.closes[f] == e, "fd-close", "descriptor %d closed %d times, expected %d", f, F.closes[f], e); }
  real(base); F = Fault{}; obs(want.size()); for (auto &[f, e] : want) { obs(u64(f * 100 + e)); EV("descriptors closed"); }
}
