// Runtime monitoring harness core. Header only, one TU per property (VH_MAIN defined there by default).
#pragma once
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <exception>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <typeinfo>
#include <limits>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <grp.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
#endif
#endif
#if VH_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#include <sanitizer/asan_interface.h>
#endif

namespace vh {
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;
using u128 = unsigned __int128; using i128 = __int128;

inline u64 mix64(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline u64 hash_bytes(void const *p, size_t n, u64 h = 0xcbf29ce484222325ull) { auto c = static_cast<u8 const *>(p); for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; } return mix64(h); }

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 u() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? u() % n : 0; }
  i64 in(i64 a, i64 b) { return a + static_cast<i64>(below(static_cast<u64>(b - a) + 1)); } // inclusive
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  bool flip() { return u() & (1ull << 40); }
  template <class C> auto &pick(C &c) { return c[below(std::size(c))]; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  // Small biased to interesting counts.
  u64 size(u64 max) { // geometric-ish
    switch (below(8)) { case 0: return 0; case 1: return std::min<u64>(1, max); case 2: return max; case 3: return below(max + 1);
      default: return below(std::min<u64>(max, 12) + 1); }
  }
  // Interesting 64 bit value: powers of two +- small, small, limits, random with random bit length.
  u64 num() {
    switch (below(7)) {
    case 0: return below(20);
    case 1: return 0 - below(20);
    case 2: return (1ull << below(64)) + below(5) - 2;
    case 3: { static const u64 L[] = {0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull}; return L[below(std::size(L))] + below(3) - 1; }
    case 4: { u64 p = 1; for (u64 n = below(20); n; --n) p *= 10; return p + below(3) - 1; }
    default: return u() >> below(64);
    }
  }
};

// ---- configuration / state
struct Sub { char const *name; void (*fn)(Rng &); u64 quick, thorough; int flags; };
enum { LEAK = 1, EXHAUSTIVE = 2 };
inline std::vector<Sub> &subs() { static std::vector<Sub> v; return v; }
struct Reg { Reg(char const *n, void (*f)(Rng &), u64 q, u64 t, int fl = 0) { subs().push_back({n, f, q, t, fl}); } };
#define SUB(NAME, QUICK, THOROUGH, FLAGS) static void NAME(vh::Rng &rng); static vh::Reg vh_reg_##NAME{#NAME, NAME, QUICK, THOROUGH, FLAGS}; static void NAME([[maybe_unused]] vh::Rng &rng)

struct Progress { volatile u64 sub, idx, done; };
struct State {
  u64 seed = 1; u64 sub = 0; u64 idx = 0; u64 ncases = 0; char const *sname = "";
  bool trace = false; bool capture = false; size_t tlen = 0; char tbuf[1 << 16];
  u64 sig = 0; u64 nobs = 0; u64 total_obs = 0; u64 cases = 0; Progress *prog = nullptr; Progress local{};
  std::atomic<u64> tick_case{0}; std::atomic<int> ticks{0}; int hang_ticks = 20; std::atomic<u64> serial{0}; /* used in a signal handler, which may run in any thread */
  std::string scratch; u8 *bitmap = nullptr; bool thorough = false; bool noleak = false;
};
inline State &S() { static State s; return s; }
static constexpr size_t BM_BITS = 1u << 24;
inline volatile long g_live = 0;

struct Counter { char const *name; u64 n; Counter *next; };
inline Counter *&counters() { static Counter *h = nullptr; return h; }
inline Counter *counter(char const *name) {
  for (auto c = counters(); c; c = c->next) if (0 == strcmp(c->name, name)) return c;
  auto c = static_cast<Counter *>(mmap(nullptr, sizeof(Counter), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  c->name = name; c->n = 0; c->next = counters(); counters() = c; return c;
}
#define EV(NAME) do { static vh::Counter *vh_c = vh::counter(NAME); ++vh_c->n; } while (0)

// Observation: folds an observed value into the case signature (distinctness evidence).
inline void obs(u64 v) { auto &s = S(); s.sig = mix64(s.sig ^ v) + 1; ++s.nobs; }
inline void obs(std::string_view v) { obs(hash_bytes(v.data(), v.size())); }

__attribute__((format(printf, 1, 2))) inline void T(char const *fmt, ...) {
  auto &s = S();
  if (!s.trace && !s.capture) return;
  char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n < 0) return; if (n > int(sizeof b) - 1) n = sizeof b - 1;
  if (s.trace) { if (write(1, b, n) < 0) {} if (write(1, "\n", 1) < 0) {} }
  if (s.capture && s.tlen + n + 2 < sizeof s.tbuf) { memcpy(s.tbuf + s.tlen, b, n); s.tlen += n; s.tbuf[s.tlen++] = '\n'; }
}
inline bool tracing() { return S().trace || S().capture; }
// Printable rendering of bytes.
inline std::string esc(std::string_view v, size_t max = 300) {
  std::string r = "\""; static const char *hx = "0123456789abcdef";
  for (size_t i = 0; i < v.size() && i < max; ++i) { u8 c = v[i]; if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c >= 32 && c < 127) r += char(c); else { r += "\\x"; r += hx[c >> 4]; r += hx[c & 15]; } }
  r += '"'; if (v.size() > max) r += "...(" + std::to_string(v.size()) + ")"; return r;
}
[[noreturn]] __attribute__((format(printf, 2, 3))) inline void fail(char const *oracle, char const *fmt, ...) {
  auto &s = S(); char b[8192]; int k = snprintf(b, sizeof b, "\n@FAIL\t%s\t%llu\t%s\t", s.sname, (unsigned long long)s.idx, oracle);
  va_list ap; va_start(ap, fmt); int n = vsnprintf(b + k, sizeof b - k - 2, fmt, ap); va_end(ap);
  k = std::min<int>(k + std::max(n, 0), sizeof b - 2); for (int i = 1; i < k; ++i) if (b[i] == '\n') b[i] = ' ';
  b[k++] = '\n'; if (write(1, b, k) < 0) {} _exit(42);
}
#define CHECK(COND, ORACLE, ...) do { if (!(COND)) vh::fail(ORACLE, __VA_ARGS__); } while (0)
// Equality of text.
inline void eq_text(std::string_view got, std::string_view want, char const *oracle, std::string const &ctx) {
  if (got != want) fail(oracle, "%s: got %s expected %s", ctx.c_str(), esc(got).c_str(), esc(want).c_str());
}

// ---- exact size heap text: any over-read hits an ASan red zone at both ends.
class HText {
  std::unique_ptr<char[]> p; size_t n;
public:
  explicit HText(std::string_view s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n);
#if VH_ASAN
    if (!n) __asan_poison_memory_region(p.get(), 1);
#endif
  }
  HText(HText &&) = default;
  ~HText() {
#if VH_ASAN
    if (p && !n) __asan_unpoison_memory_region(p.get(), 1);
#endif
  }
  std::string_view view() const { return {p.get(), n}; }
  char *data() { return p.get(); } char const *data() const { return p.get(); } size_t size() const { return n; }
  operator std::string_view() const { return view(); }
};

// ---- lifetime counting payload
struct Life { // global census
  i64 live = 0, ctor = 0, dtor = 0, copy = 0, move = 0; void reset() { *this = Life{}; }
};
inline Life &life() { static Life l; return l; }
// value type owning heap memory, with canary: detects double destroy, use after destroy, bitwise copies.
struct Owned {
  static constexpr u32 ALIVE = 0xA11FEu, DEAD = 0xDEADu;
  u32 magic = ALIVE; Owned const *self; int *v;
  void ok(char const *w) const { if (magic != ALIVE || self != this) fail("lifetime", "%s on %s payload", w, magic == ALIVE ? "bitwise-relocated" : (magic == DEAD ? "destroyed" : "garbage")); }
  Owned(int x = 0) : self(this), v(new int(x)) { ++life().live; ++life().ctor; }
  Owned(Owned const &o) : self(this) { o.ok("copy from"); v = new int(*o.v); ++life().live; ++life().copy; }
  Owned(Owned &&o) noexcept : self(this) { o.ok("move from"); v = o.v; o.v = new int(-777); ++life().live; ++life().move; }
  Owned &operator=(Owned const &o) { ok("assign to"); o.ok("assign from"); int x = *o.v; *v = x; return *this; }
  Owned &operator=(Owned &&o) noexcept { ok("assign to"); o.ok("assign from"); std::swap(v, o.v); return *this; }
  ~Owned() { ok("destroy"); magic = DEAD; delete v; v = nullptr; --life().live; ++life().dtor; }
  int get() const { ok("read"); return *v; }
  void set(int x) { ok("write"); *v = x; }
  bool operator==(Owned const &o) const { return get() == o.get(); }
  bool operator!=(Owned const &o) const { return get() != o.get(); }
};

inline bool thorough() { return S().thorough; }

// ---- runner
inline void on_tick(int) {
  auto &s = S();
  if (s.tick_case == s.serial.load()) { if (++s.ticks >= s.hang_ticks) { char b[256]; int k = snprintf(b, sizeof b, "\n@FAIL\t%s\t%llu\thang\tcase used more than %d s of CPU\n", s.sname, (unsigned long long)s.idx, s.hang_ticks); if (write(1, b, k) < 0) {} _exit(43); } }
  else { s.tick_case = s.serial.load(); s.ticks = 0; }
}
inline void mhook(const volatile void *, size_t) { __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED); }
inline void fhook(const volatile void *p) { if (p) __atomic_fetch_sub(&g_live, 1, __ATOMIC_RELAXED); }

inline void call(Sub const &sub, u64 idx) {
  Rng rng(mix64(S().seed * 0x1000193 ^ hash_bytes(sub.name, strlen(sub.name)) ^ mix64(idx)));
  S().idx = idx; ++S().serial;
  try { sub.fn(rng); }
  catch (std::exception const &x) { fail("exception", "%s: %s", typeid(x).name(), x.what()); }
  catch (...) { fail("exception", "unknown exception"); }
}
inline void one(Sub const &sub, u64 idx) {
  auto &s = S(); s.prog->idx = idx; s.sig = 0x51; s.nobs = 0;
  long before = g_live;
  call(sub, idx);
  s.total_obs += s.nobs; ++s.cases;
  if (s.nobs) { u64 h = mix64(s.sig ^ hash_bytes(sub.name, strlen(sub.name))) % BM_BITS; s.bitmap[h >> 3] |= u8(1u << (h & 7)); }
#if VH_ASAN
  if (sub.flags & LEAK && !s.noleak) {
    if (g_live != before) { // possible one-time static initialisation: must not repeat.
      bool t = s.trace; s.trace = false;
      long b2 = g_live; call(sub, idx); long d2 = g_live - b2;
      if (d2) { b2 = g_live; call(sub, idx); d2 = g_live - b2; }
      s.trace = t;
      if (d2) fail("leak", "%ld heap blocks still allocated after every object of the case was destroyed (repeats)", d2);
    }
  }
#else
  (void)before;
#endif
}

inline int run(int argc, char **argv) {
  auto &s = S(); char const *progf = nullptr, *outf = nullptr, *bmf = nullptr, *only = nullptr; i64 shard = 0, nshards = 1, ocase = -1; long user = -1; u64 ssub = 0, scase = 0; double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string_view a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (exit(3), argv[0]); };
    if (a == "--seed") s.seed = strtoull(nx(), 0, 0); else if (a == "--shard") shard = atoll(nx()); else if (a == "--nshards") nshards = atoll(nx());
    else if (a == "--progress") progf = nx(); else if (a == "--out") outf = nx(); else if (a == "--bitmap") bmf = nx();
    else if (a == "--sub") only = nx(); else if (a == "--case") ocase = atoll(nx()); else if (a == "--start-sub") ssub = strtoull(nx(), 0, 0); else if (a == "--start-case") scase = strtoull(nx(), 0, 0);
    else if (a == "--thorough") s.thorough = true; else if (a == "--trace") s.trace = true; else if (a == "--hang") s.hang_ticks = atoi(nx()); else if (a == "--scale") scale = atof(nx()); else if (a == "--noleak") s.noleak = true; else if (a == "--user") user = atol(nx()); else if (a == "--scratch") s.scratch = nx();
    else if (a == "--list") { for (auto &x : subs()) printf("%s %llu %llu\n", x.name, (unsigned long long)x.quick, (unsigned long long)x.thorough); return 0; }
    else { fprintf(stderr, "bad arg %s\n", argv[i]); return 3; }
  }
  s.prog = &s.local;
  if (progf) { int fd = open(progf, O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, 4096) < 0) return 3; s.prog = static_cast<Progress *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); if (s.prog == MAP_FAILED) return 3; close(fd); }
  FILE *of = nullptr, *bf = nullptr; // opened now: the workload may run with fewer privileges.
  if (outf && !(of = fopen(outf, "w"))) return 3;
  if (bmf && !(bf = fopen(bmf, "w"))) return 3;
  for (FILE *f : {of, bf}) if (f) fcntl(fileno(f), F_SETFD, FD_CLOEXEC);
  if (!s.scratch.empty() && chdir(s.scratch.c_str()) != 0) { perror("scratch"); return 3; }
  if (user >= 0 && geteuid() == 0) { gid_t g = user; if (setgroups(1, &g) || setresgid(g, g, g) || setresuid(user, user, user)) { perror("drop privileges"); return 3; } }
  s.bitmap = static_cast<u8 *>(mmap(nullptr, BM_BITS / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  std::sort(subs().begin(), subs().end(), [](Sub const &a, Sub const &b) { return strcmp(a.name, b.name) < 0; });
#if VH_ASAN
  __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
  itimerval tv{{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
  std::string samples; std::string stats;
  for (u64 si = 0; si < subs().size(); ++si) {
    auto &sub = subs()[si]; if (only && 0 != strcmp(only, sub.name)) continue; if (si < ssub) continue;
    s.sub = si; s.sname = sub.name; s.prog->sub = si; u64 n = s.thorough ? sub.thorough : sub.quick; if (!(sub.flags & EXHAUSTIVE)) n = std::max<u64>(1, u64(n * scale)); s.ncases = n;
    if (ocase >= 0) { one(sub, ocase); continue; }
    u64 start = (si == ssub) ? scase : 0; u64 ran = 0; u64 obs0 = s.total_obs;
    for (u64 i = start; i < n; ++i) {
      if (i64(i % nshards) != shard) continue;
      bool cap = !s.trace && (i == u64(n > 3 ? 3 : 0)); // sample
      if (cap) { s.capture = true; s.tlen = 0; }
      one(sub, i); ++ran;
      if (cap) { s.capture = false; samples += "@SAMPLE\t"; samples += sub.name; samples += "\t"; std::string t(s.tbuf, std::min<size_t>(s.tlen, 700)); for (auto &c : t) if (c == '\n' || c == '\t') c = ';'; samples += t + "\n"; }
    }
    stats += std::string("@SUB\t") + sub.name + "\t" + std::to_string(ran) + "\t" + std::to_string(s.total_obs - obs0) + "\n";
  }
  s.prog->done = 1;
  if (of) {
    fprintf(of, "@CASES\t%llu\n@OBS\t%llu\n", (unsigned long long)s.cases, (unsigned long long)s.total_obs);
    for (auto c = counters(); c; c = c->next) fprintf(of, "@EV\t%s\t%llu\n", c->name, (unsigned long long)c->n);
    fputs(stats.c_str(), of); fputs(samples.c_str(), of); if (fclose(of)) return 3;
  }
  if (bf) { fwrite(s.bitmap, 1, BM_BITS / 8, bf); if (fclose(bf)) return 3; }
  if (ocase >= 0) printf("@OK\n");
  return 0;
}
} // namespace vh

#ifndef VH_NO_MAIN
int main(int argc, char **argv) { return vh::run(argc, argv); }
#endif
