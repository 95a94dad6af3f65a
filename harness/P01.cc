// P01: path composition, parts, comparison; absolute / canonical name the same object.
#include "fsx.h"
#include "swoc/swoc_file.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include <filesystem>
#include <unordered_map>
#include <dlfcn.h>
// Bypass the sanitizer interceptor, which limits names to PATH_MAX.
extern "C" char *realpath(char const *p, char *out) noexcept { static auto f = reinterpret_cast<char *(*)(char const *, char *)>(dlsym(RTLD_NEXT, "realpath")); return f(p, out); }
using namespace vh;
using swoc::file::path;
static std::string txt(Rng &r, size_t max = 6) {
  static char const *E[] = {"a", "foo", ".", "..", "bar.txt", " ", "\xff\x80", "a b", "~", "C:\\x", "longer-component-name-which-defeats-small-strings"};
  std::string s; if (r.chance(1, 2)) s.append(r.chance(1, 4) ? r.below(4) : 1, '/');
  for (u64 n = r.below(max); n; --n) { s += E[r.below(std::size(E))]; s.append(r.chance(1, 5) ? 1 + r.below(3) : 1, '/'); }
  if (!s.empty() && r.chance(2, 3)) while (s.size() > 1 && s.back() == '/') s.pop_back();
  if (r.chance(1, 40)) s += std::string(r.below(300), 'x');
  return s;
}
static std::string join(std::string const &a, std::string const &b) {
  if (b.empty()) return a; if (b[0] == '/' || a.empty()) return b; return a.back() == '/' ? a + b : a + "/" + b;
}
static void same(path const &p, std::string const &want, char const *orc, std::string const &ctx) {
  eq_text(p.string(), want, orc, ctx); eq_text(p.view(), want, orc, ctx + " (view)"); CHECK(std::string_view(p.c_str()) == std::string_view(want.c_str()), orc, "%s: c_str", ctx.c_str());
  CHECK(p.empty() == want.empty() && p.is_absolute() == (!want.empty() && want[0] == '/') && p.is_relative() == !p.is_absolute(), "absolute", "%s: %s absolute %d", ctx.c_str(), esc(want).c_str(), p.is_absolute());
  obs(want);
}
SUB(compose, 300000, 6000000, LEAK) {
  std::string a = txt(rng), b = txt(rng); T("a %s b %s", esc(a).c_str(), esc(b).c_str());
  HText ha(a), hb(b); std::string ctx = esc(a) + " / " + esc(b);
  path pa{ha.view()}, pb{hb.view()}; same(pa, a, "text", "construct"); same(pb, b, "text", "construct");
  std::string w = join(a, b);
  bool multi = a.size() > 1 && a[a.size() - 1] == '/' && a[a.size() - 2] == '/' && !b.empty() && b[0] != '/';
  auto good = [&](path const &r) { if (!multi) { same(r, w, "join", ctx); return; }
    std::string c = a; while (c.size() > 1 && c[c.size() - 2] == '/') c.pop_back(); CHECK(r.string() == w || r.string() == c + b, "join", "%s gave %s", ctx.c_str(), esc(r.string()).c_str()); obs(r.string()); };
  switch (rng.below(9)) {
  case 0: { auto r = pa / pb; good(r); break; }
  case 1: { auto r = pa / hb.view(); good(r); break; }
  case 2: { auto r = path(ha.view()) / pb; good(r); break; }
  case 3: { auto r = path(ha.view()) / hb.view(); good(r); break; }
  case 4: { path r{pa}; auto &x = (r /= pb); CHECK(&x == &r, "join-result", "/= result is another object"); good(r); break; }
  case 5: { path r{pa}; auto &x = (r /= hb.view()); CHECK(&x == &r, "join-result", "/= result is another object"); good(r); break; }
  case 6: { path r; r = ha.view(); r /= swoc::TextView(hb.view()); good(r); break; }
  case 7: { path r{std::string(a)}; r /= path{std::string(b)}; good(r); break; }
  case 8: { path r{pa}; r.reserve(rng.below(400)); same(r, a, "reserve", ctx); r /= hb.view(); good(r); break; }
  }
  same(pa, a, "operand-changed", ctx); same(pb, b, "operand-changed", ctx);
  CHECK((pa == pb) == (a == b) && (pa != pb) == (a != b), "compare", "%s", ctx.c_str());
  if (a == b) CHECK(std::hash<path>()(pa) == std::hash<path>()(pb), "hash", "equal paths hash differently");
  path copy{pa}; CHECK(copy == pa && std::hash<path>()(copy) == std::hash<path>()(pa), "hash", "copy differs");
  path mv{std::move(copy)}; same(mv, a, "move", ctx); copy = std::move(mv); same(copy, a, "move", ctx); copy = pb; same(copy, b, "assign", ctx);
  EV("joins");
}
SUB(selfref, 200000, 4000000, LEAK) { // the operand is (part of) the path itself
  std::string a = txt(rng); if (rng.chance(1, 3)) a += std::string(rng.below(40), 'q'); path p{a}; std::string ctx = esc(a); T("self %s", ctx.c_str());
  if (rng.flip()) p.reserve(a.size() * 2 + 2 - rng.below(3));
  size_t i = rng.below(a.size() + 1), n = rng.below(a.size() - i + 1); std::string part = a.substr(i, n);
  bool multi = a.size() > 1 && a[a.size() - 1] == '/' && a[a.size() - 2] == '/';
  switch (rng.below(8)) {
  case 6: { std::string v = txt(rng); p = v; same(p, v, "assign string", ctx); break; }
  case 7: { std::string v = txt(rng); if (rng.flip()) v += std::string(40, 'w'); std::string m(v); p = std::move(m); same(p, v, "assign moved string", ctx); break; }
  case 0: p /= p; if (!multi || a[0] == '/') same(p, join(a, a), "self-join", ctx + " /= itself"); break;
  case 1: p /= p.view(); if (!multi || a[0] == '/') same(p, join(a, a), "self-join", ctx + " /= its view"); break;
  case 2: p /= p.view().substr(i, n); if (!multi || part.empty() || part[0] == '/') same(p, join(a, part), "self-join", ctx + " /= own part " + esc(part)); break;
  case 3: p = p.view().substr(i, n); same(p, part, "self-assign", ctx); break;
  case 4: { auto &q = p; p = q; same(p, a, "self-assign", ctx); break; }
  case 5: p = p.c_str() + i; same(p, a.substr(i), "self-assign", ctx); break;
  }
  EV("self references");
}
SUB(parts, 200000, 4000000, LEAK) {
  std::string a = txt(rng); path p{std::string_view(a)}; std::string ctx = esc(a); T("parts %s", ctx.c_str());
  size_t k = a.rfind('/');
  same(p.filename(), k == a.npos ? a : a.substr(k + 1), "filename", ctx + " filename");
  std::string par = k == a.npos ? "" : k == 0 ? "/" : a.substr(0, k);
  same(p.parent_path(), par, "parent", ctx + " parent");
  size_t f = a.find_first_not_of('/'); same(p.relative_path(), f == a.npos ? "" : a.substr(f), "relative", ctx + " relative");
  CHECK(p.relative_path().is_relative(), "relative", "%s: relative part is absolute", ctx.c_str());
  // rebuild: the parent joined with the file name is the same path (when there is a name and one separator).
  if (k != a.npos && k + 1 < a.size() && (k == 0 || a[k - 1] != '/')) same(p.parent_path() / p.filename(), a, "rejoin", ctx);
  // walking up terminates at the root or at nothing
  path q{p}; size_t n = 0; while (!q.empty() && q.string() != "/") { CHECK(++n <= a.size() + 1, "parent-walk", "%s: walk up does not end", ctx.c_str()); q = q.parent_path(); }
  CHECK(q.is_absolute() == (!a.empty() && a[0] == '/'), "parent-walk", "%s: walk up changed from %s", ctx.c_str(), p.is_absolute() ? "absolute to relative" : "relative to absolute");
  same(p, a, "operand-changed", ctx); EV("splits");
}
SUB(keys, 6000, 100000, LEAK) { // hashed container keyed by path vs. keyed by text
  std::unordered_map<path, int> m; std::unordered_map<std::string, int> w; u64 n = 1 + rng.below(30);
  for (u64 i = 0; i < n; ++i) { std::string a = txt(rng, 2); int v = int(rng.below(1000)); if (rng.chance(1, 4)) { CHECK(m.erase(path{a}) == w.erase(a), "container", "erase %s", esc(a).c_str()); } else { m[path{a}] = v; w[a] = v; } CHECK(m.size() == w.size(), "container", "sizes differ"); }
  for (auto &[t, v] : w) { auto s = m.find(path{t}); CHECK(s != m.end() && s->second == v, "container", "%s lost", esc(t).c_str()); obs(t); }
  EV("maps");
}
SUB(format, 20000, 300000, LEAK) {
  std::string a = txt(rng); for (auto &c : a) if (u8(c) < 32) c = '_'; path p{a}; static char const *F[] = {"{}", "<{}>", "{:>30}", "{:*^25}", "{:.5}", "{:<12.4}|", "{0} {0}", "{:x}", "{::1}"}; char const *f = F[rng.below(7)];
  swoc::LocalBufferWriter<4000> w1, w2; w1.print(f, p); w2.print(f, std::string_view(a)); eq_text(w1.view(), w2.view(), "format", esc(a) + " with " + f); obs(w1.view());
  std::string s1; swoc::bwprint(s1, f, p); eq_text(s1, w2.view(), "format", "bwprint"); EV("formats");
}
SUB(tempdir, 3000, 30000, LEAK) {
  static char const *N[] = {"TMPDIR", "TMP", "TEMP", "TEMPDIR"}; std::string want = "/tmp"; bool set = false;
  for (auto n : N) { if (rng.flip()) { std::string v = "/x" + std::to_string(rng.below(1000)) + (rng.flip() ? "/" : ""); setenv(n, v.c_str(), 1); if (!set) { set = true; want = v; } T("%s=%s", n, v.c_str()); } else unsetenv(n); }
  same(swoc::file::temp_directory_path(), want, "tempdir", "temp_directory_path"); EV("environments");
  for (auto n : N) unsetenv(n);
}
// ---- names of real objects
static std::pair<dev_t, ino_t> id_of(struct stat const &s) { return {s.st_dev, s.st_ino}; }
// resolve an absolute canonical name of any length component by component, never through a link.
static bool walk(std::string const &p, std::pair<dev_t, ino_t> &id, std::string &why) {
  if (p.empty() || p[0] != '/') { why = "not absolute"; return false; }
  int fd = open("/", O_PATH | O_CLOEXEC); size_t i = 1;
  while (i < p.size()) { size_t j = p.find('/', i); if (j == p.npos) j = p.size(); std::string c = p.substr(i, j - i);
    if (c.empty() || c == "." || c == "..") { close(fd); why = "component " + esc(c); return false; }
    struct stat s; if (fstatat(fd, c.c_str(), &s, AT_SYMLINK_NOFOLLOW)) { close(fd); why = "no such " + esc(c); return false; }
    if (S_ISLNK(s.st_mode)) { close(fd); why = "link " + esc(c); return false; }
    int n = openat(fd, c.c_str(), O_PATH | O_CLOEXEC | O_NOFOLLOW); close(fd); if (n < 0) { why = "open " + esc(c); return false; } fd = n; i = j + 1; }
  if (p.size() > 1 && p.back() == '/') { close(fd); why = "trailing separator"; return false; }
  struct stat s; fstat(fd, &s); close(fd); id = id_of(s); return true;
}
static std::error_code stale(Rng &r) { switch (r.below(4)) { case 0: return {}; case 1: return {ENOENT, std::system_category()}; case 2: return {EISDIR, std::generic_category()}; default: return {int(1 + r.below(120)), std::system_category()}; } }
SUB(names, 20000, 300000, 0) {
  fsx::Case cs; std::vector<std::string> dirs{"."}, all{"."};
  for (u64 n = 2 + rng.below(8); n; --n) { std::string d = dirs[rng.below(dirs.size())] + "/" + char('a' + rng.below(4));
    switch (rng.below(4)) { case 0: case 1: if (!mkdir(d.c_str(), 0700)) dirs.push_back(d), all.push_back(d); break; case 2: { int f = open(d.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600); if (f >= 0) { close(f); all.push_back(d); } break; }
      case 3: { std::string t = rng.chance(1, 6) ? std::string("nowhere") : rng.flip() ? cs.abs + "/" + dirs[rng.below(dirs.size())].substr(1) : std::string(rng.flip() ? ".." : "a"); if (!symlink(t.c_str(), d.c_str())) { all.push_back(d); if (rng.flip()) dirs.push_back(d); } break; } } }
  std::string cwd = rng.chance(1, 3) ? dirs[rng.below(dirs.size())] : "."; bool moved = !chdir(cwd.c_str());
  char cb[4096]; CHECK(getcwd(cb, sizeof cb), "harness", "getcwd"); same(swoc::file::current_path(), cb, "cwd", "current_path");
  for (int k = 0; k < 8; ++k) {
    std::string t; int up = int(rng.below(3));
    if (!moved || cwd == ".") t = all[rng.below(all.size())].substr(rng.flip() ? 0 : 0); else t = std::string(1, char('a' + rng.below(4)));
    if (t.substr(0, 2) == "./" && rng.flip()) t = t.substr(2);
    while (up--) t += rng.flip() ? "/.." : "/."; if (rng.chance(1, 5)) t += "/" + std::string(1, char('a' + rng.below(4))); if (rng.chance(1, 8)) t += "/";
    if (rng.chance(1, 4)) t = std::string(cb) + (rng.flip() ? "/" : "//") + t; if (rng.chance(1, 30)) t = ""; if (rng.chance(1, 30)) t = std::string(5000, 'x'); if (rng.chance(1, 30)) t = std::string(300, 'y');
    path p{t}; struct stat s; bool ex = stat(t.c_str(), &s) == 0; std::string ctx = "cwd " + std::string(cb) + " path " + esc(t); T("%s exists %d", ctx.c_str(), ex);
    auto ec = stale(rng); auto c = swoc::file::canonical(p, ec); std::pair<dev_t, ino_t> id; std::string why;
    CHECK(!ec == ex, "canonical-error", "%s: exists %d error %s", ctx.c_str(), ex, ec.message().c_str());
    if (ex) { CHECK(walk(c.string(), id, why), "canonical-form", "%s -> %s: %s", ctx.c_str(), esc(c.string()).c_str(), why.c_str()); CHECK(id == id_of(s), "canonical-object", "%s -> %s is another object", ctx.c_str(), esc(c.string()).c_str()); EV("canonical names"); }
    else { CHECK(c.empty(), "canonical-error", "%s: result %s with an error", ctx.c_str(), esc(c.string()).c_str()); EV("canonical errors"); }
    ec = stale(rng); auto b = swoc::file::absolute(p, ec);
    if (p.is_absolute()) { CHECK(!ec, "absolute-error", "%s: error for an absolute path", ctx.c_str()); same(b, t, "absolute-copy", ctx); }
    else { CHECK(!ec == ex, "absolute-error", "%s: exists %d error %s", ctx.c_str(), ex, ec.message().c_str());
      if (ex) { struct stat s2; CHECK(b.is_absolute(), "absolute", "%s -> %s", ctx.c_str(), esc(b.string()).c_str()); CHECK(stat(b.c_str(), &s2) == 0 && id_of(s2) == id_of(s), "absolute-object", "%s -> %s is another object", ctx.c_str(), esc(b.string()).c_str()); EV("absolute names"); }
      else CHECK(b.empty(), "absolute-error", "%s: result %s with an error", ctx.c_str(), esc(b.string()).c_str()); }
    same(p, t, "operand-changed", ctx); obs(c.string()); obs(u64(ec.value()));
  }
}
SUB(deep, 400, 4000, LEAK) { // current directory and targets with names longer than PATH_MAX
  fsx::Case cs; std::string full = cs.abs; size_t want = rng.pick({3000, 3900, 4000, 4050, 4070, 4080, 4096, 4100, 4200, 6000}) + rng.below(30);
  while (full.size() < want) { size_t n = std::min<size_t>(1 + rng.below(250), want - full.size()); n = n ? n : 1; std::string c(n, char('a' + rng.below(26))); if (mkdir(c.c_str(), 0700) || chdir(c.c_str())) { CHECK(false, "harness", "mkdir %s", strerror(errno)); } full += "/" + c; }
  struct stat s; stat(".", &s); T("depth %zu", full.size()); { int f = open("file", O_CREAT | O_WRONLY, 0600); close(f); }
  { auto c = swoc::file::current_path(); eq_text(c.string(), full, "cwd", "current_path of a deep directory"); }
  std::pair<dev_t, ino_t> id; std::string why; auto ec = stale(rng);
  { auto c = swoc::file::canonical(path{"."}, ec); char *r = ::realpath(".", nullptr);
    CHECK(!ec == (r != nullptr), "deep-canonical", "error %s at length %zu, system %s", ec.message().c_str(), full.size(), r ? "succeeds" : "fails");
    if (r) { eq_text(c.string(), full, "deep-canonical", "canonical"); CHECK(walk(c.string(), id, why) && id == id_of(s), "deep-canonical", "%s", why.c_str()); EV("canonical deep"); } free(r); }
  ec = stale(rng); { auto c = swoc::file::absolute(path{"file"}, ec); char *r = ::realpath("file", nullptr); CHECK(!ec == (r != nullptr), "deep-absolute", "error %s at length %zu, system %s", ec.message().c_str(), full.size(), r ? "succeeds" : "fails"); if (r) { eq_text(c.string(), full + "/file", "deep-absolute", "absolute"); EV("absolute deep"); } else CHECK(c.empty(), "deep-absolute", "result with an error"); free(r); }
  ec = stale(rng); { auto c = swoc::file::canonical(path{"none"}, ec); CHECK(ec && c.empty(), "deep-canonical", "missing item: no error"); }
  obs(full.size()); EV("deep names");
}

// Scale: joined texts up to tens of kilobytes, built in many steps, with lengths around powers of two.
SUB(longnames, 1500, 30000, LEAK) {
  std::string model; path p; if (rng.flip()) { model = "/"; p = path{"/"}; } size_t limit = (size_t(1) << rng.in(6, 16)) + rng.below(9) - 4;
  for (int k = 0; k < 400 && model.size() < limit; ++k) { size_t room = limit - model.size(), n = rng.chance(1, 4) ? room : 1 + rng.below(rng.flip() ? 20 : room); std::string c(n, char('a' + k % 26)); if (n > 4 && rng.flip()) c[rng.below(n - 1) + 1] = '/'; if (c.size() > 1 && c.back() == '/') c.back() = 'z'; for (size_t i = 1; i < c.size(); ++i) if (c[i] == '/' && c[i - 1] == '/') c[i] = 'y';
    model = join(model, c); HText h(c); switch (rng.below(4)) { case 0: p /= h.view(); break; case 1: p = p / h.view(); break; case 2: p /= path{h.view()}; break; default: { path q{p}; q /= h.view(); p = std::move(q); } }
    CHECK(p.view() == model, "long join", "after %d components %zu bytes, expected %zu", k + 1, p.view().size(), model.size()); }
  same(p, model, "long text", "result"); path c{p}; CHECK(c == p && std::hash<path>()(c) == std::hash<path>()(p), "hash", "copy of a long path"); path o{model.substr(0, model.size() - 1) + char(model.back() ^ 1)}; CHECK(!(o == p) && o != p, "compare", "long paths which differ in the last character are equal");
  auto par = p.parent_path(); size_t k = model.rfind('/'); if (k != model.npos) eq_text(par.string(), model.substr(0, k ? k : 1), "long parent", "parent_path"); eq_text(p.filename().string(), k == model.npos ? model : model.substr(k + 1), "long filename", "filename"); T("%zu bytes", model.size()); EV("long paths");
}
