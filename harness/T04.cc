#include "vh.h"
#include "swoc/TextView.h"
#include <sys/mman.h>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
using swoc::TextView; using std::string_view; using std::string;
// T04: comparison functions and functors are consistent total orders.
static unsigned char lo(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ref(string_view a, string_view b, bool nc) { for (size_t i = 0; i < a.size() && i < b.size(); ++i) { unsigned char x = a[i], y = b[i]; if (nc) { x = lo(x); y = lo(y); } if (x != y) return x < y ? -1 : 1; } return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1; }
static int sg(int x) { return x < 0 ? -1 : x > 0; }
static string gen(vh::Rng &rng, size_t mx, unsigned k) { static char const A[] = {'a', 'A', '\0', char(0xff), 'b', '[', '{', 'Z', 'z', char(0x80), '@', '`'}; string s(rng.size(mx), 0); for (auto &c : s) c = rng.chance(1, 20) ? char(rng.u()) : A[rng.below(k)]; return s; }
static void pair(string_view a, string_view b) {
  int e = ref(a, b, false), n = ref(a, b, true); TextView x{a}, y{b}; vh::obs((e + 1) * 4 + n + 1);
#define Q(EXPR, WANT) do { int g_ = EXPR, w_ = WANT; EV("comparison"); CHECK(g_ == w_, #EXPR, "%s = %d expected %d for %s and %s", #EXPR, g_, w_, vh::esc(a).c_str(), vh::esc(b).c_str()); } while (0)
  Q(sg(memcmp(a, b)), e); Q(sg(strcmp(a, b)), e); Q(sg(strcasecmp(a, b)), n); Q(sg(memcmp(x, y)), e); Q(sg(strcmp(x, y)), e); Q(sg(strcasecmp(x, y)), n); Q(sg(strcmp(x, b)), e); Q(sg(strcasecmp(a, y)), n);
  Q(TextView::LessThan{}(x, y), e < 0); Q(TextView::LessThanNoCase{}(x, y), n < 0); Q(TextView::CaselessEqual{}(x, y), n == 0);
  Q(x == y, e == 0); Q(x != y, e != 0); Q(x < y, e < 0); Q(x <= y, e <= 0); Q(x > y, e > 0); Q(x >= y, e >= 0); Q(x == b, e == 0); Q(a == y, e == 0);
  if (e == 0) Q(std::hash<TextView>{}(x) == std::hash<TextView>{}(y), true);
}
SUB(pairs, 200000, 6000000, 0) {
  unsigned k = unsigned(rng.in(1, 12)); string s = gen(rng, rng.chance(1, 20) ? 200 : 8, k), t;
  switch (rng.below(4)) { case 0: t = gen(rng, 8, k); break; case 1: t = s.substr(0, rng.below(s.size() + 1)); break; case 2: t = s; if (t.size()) t[rng.below(t.size())] ^= rng.pick({0x20, 0x80, 1}); break; default: t = s; for (auto &c : t) if (rng.flip() && isalpha(static_cast<unsigned char>(c))) c ^= 0x20; t += gen(rng, 2, k); }
  if (rng.flip()) std::swap(s, t); vh::HText a(s), b(t); vh::T("%s %s", vh::esc(s).c_str(), vh::esc(t).c_str()); pair(a, b); pair(b, a); pair(a, a);
  if (s.size()) { string_view v = a; size_t n = rng.below(s.size() + 1); pair(v, v.substr(0, n)); pair(v.substr(0, n), v); pair(v.substr(n), v); }
}
static constexpr unsigned W = 1 + 6 + 36 + 216;
static string word(unsigned k) { unsigned len = 0, p = 1; while (k >= p) { k -= p; p *= 6; ++len; } string s; for (unsigned i = 0; i < len; ++i, k /= 6) s += "aAb\0\xff["[k % 6]; return s; }
SUB(exhaustive, W *W, W *W, vh::EXHAUSTIVE) { vh::HText a(word(unsigned(vh::S().idx % W))), b(word(unsigned(vh::S().idx / W))); pair(a, b); }
template <class M, class F> static void container(vh::Rng &rng, M &m, F norm) {
  std::map<string, int> ref; std::vector<std::unique_ptr<vh::HText>> store; unsigned k = unsigned(rng.in(2, 12)); std::vector<string> keys; for (int i = 0; i < 25; ++i) keys.push_back(gen(rng, 5, k));
  for (int i = 0; i < 60; ++i) { auto &s = keys[rng.below(keys.size())]; vh::HText q(s);
    switch (rng.below(3)) { case 0: { store.push_back(std::make_unique<vh::HText>(s)); bool a = m.emplace(TextView(store.back()->view()), i).second, b = ref.emplace(norm(s), i).second; CHECK(a == b, "container", "insert of %s %d expected %d", vh::esc(s).c_str(), a, b); break; }
      case 1: { auto a = m.erase(TextView(q.view())), b = ref.erase(norm(s)); CHECK(a == b, "container", "erase of %s %zu expected %zu", vh::esc(s).c_str(), size_t(a), size_t(b)); break; }
      default: { auto a = m.find(TextView(q.view())); auto b = ref.find(norm(s)); CHECK((a == m.end()) == (b == ref.end()), "container", "find of %s wrong", vh::esc(s).c_str()); if (a != m.end()) CHECK(a->second == b->second, "container", "find of %s gave another key's value", vh::esc(s).c_str()); } }
    CHECK(m.size() == ref.size(), "container", "size %zu expected %zu", m.size(), ref.size()); vh::obs(m.size()); EV("container op"); }
}
static string same(string const &s) { return s; }
static string fold(string const &s) { string r = s; for (auto &c : r) c = char(lo(static_cast<unsigned char>(c))); return r; }
SUB(maps, 10000, 300000, 0) {
  switch (rng.below(3)) { case 0: { std::map<TextView, int, TextView::LessThan> m; container(rng, m, same); break; } case 1: { std::map<TextView, int, TextView::LessThanNoCase> m; container(rng, m, fold); break; } default: { std::unordered_map<TextView, int> m; container(rng, m, same); } }
}
// Scale: kilobytes with a common part, a difference late or early, and letter case changes.
SUB(long_pairs, 3000, 100000, 0) {
  size_t L = (size_t(1) << rng.in(5, 17)) + rng.below(20) - 10; string s(L, 0); vh::u64 x = rng.u(); static char const A[] = {'a', 'A', '\0', char(0xff), 'b', '[', '{', 'Z', 'z', char(0x80), '@', '`'}; for (size_t i = 0; i < L; ++i) s[i] = A[(x >> (i % 53)) % 12]; string t = s;
  if (rng.flip()) for (auto &c : t) if (isalpha(static_cast<unsigned char>(c)) && static_cast<unsigned char>(c) < 128 && rng.chance(1, 9)) c ^= 0x20;
  if (rng.chance(2, 3)) { size_t i = rng.flip() ? rng.below(L) : L - 1 - rng.below(std::min<size_t>(L, 40)); t[i] = char(t[i] ^ rng.pick({0x20, 0x80, 1, 0x40})); } if (rng.chance(1, 3)) t.resize(rng.below(L + 1)); else if (rng.chance(1, 3)) t += char(rng.u());
  vh::HText a(s), b(t); vh::T("%zu and %zu bytes", s.size(), t.size()); pair(a, b); pair(b, a); EV("long pairs");
}

// Lengths past 2^31 and 2^32: one text is short, the other continues into reserved memory (PROT_NONE) that no comparison has to read.
SUB(huge_tails, 20000, 800000, 0) {
  constexpr size_t RES = size_t(3) << 32, PAGE = 4096; static char *base = [] { void *q = mmap(nullptr, RES, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED || mprotect(q, PAGE, PROT_READ | PROT_WRITE)) return static_cast<char *>(nullptr); return static_cast<char *>(q); }(); if (!base) return; /* no address space here: its events are missing from the evidence */
  unsigned k = unsigned(rng.in(1, 12)); string s = gen(rng, rng.chance(1, 10) ? 300 : 10, k), t = s; if (rng.chance(1, 3) && t.size()) t[rng.below(t.size())] ^= rng.pick({0x20, 0x80, 1}); for (auto &c : t) if (isalpha(static_cast<unsigned char>(c)) && static_cast<unsigned char>(c) < 128 && rng.chance(1, 9)) c ^= 0x20;
  if (rng.chance(1, 5) && t.size()) t.resize(rng.below(t.size() + 1)); memcpy(base, s.data(), s.size()); size_t n = 0; static int const bits[] = {8, 12, 15, 16, 17, 24, 31, 32, 33}; do n = rng.flip() ? t.size() + (size_t(1) << rng.pick(bits)) : (size_t(rng.in(1, 2)) << rng.pick(bits)) + rng.below(9) - 4; while (n < s.size() || n > RES || n <= t.size()); if (n > s.size() && n <= PAGE) memset(base + s.size(), 'x', n - s.size());
  // what follows s in the page stays readable, so a text as long as the common part decides on its own
  string_view a(base, n); vh::HText ht(t); string_view b = ht.view(); if (b.size() > s.size()) return; TextView x{a}, y{b}; int e = ref(a, b, false), m = ref(a, b, true); vh::obs(vh::u64(n) * 9 + (e + 1) * 3 + m + 1); vh::T("%s against a text of %zu starting with %s", vh::esc(t).c_str(), n, vh::esc(s).c_str());
#define QH(EXPR, WANT) do { int g_ = EXPR, w_ = WANT; EV("comparison of huge texts"); CHECK(g_ == w_, #EXPR, "%s = %d expected %d for lengths %zu and %zu", #EXPR, g_, w_, n, t.size()); } while (0)
  QH(sg(memcmp(a, b)), e); QH(sg(memcmp(b, a)), -e); QH(sg(strcmp(a, b)), e); QH(sg(strcmp(b, a)), -e); QH(sg(strcasecmp(a, b)), m); QH(sg(strcasecmp(b, a)), -m); QH(sg(strcmp(x, y)), e); QH(sg(strcasecmp(x, y)), m); QH(sg(memcmp(y, x)), -e);
  QH(TextView::LessThan{}(x, y), e < 0); QH(TextView::LessThan{}(y, x), e > 0); QH(TextView::LessThanNoCase{}(x, y), m < 0); QH(TextView::LessThanNoCase{}(y, x), m > 0); QH(TextView::CaselessEqual{}(x, y), false); QH(x == y, false); QH(y != x, true); QH(x < y, e < 0); QH(y < x, e > 0);
}

// Both texts past 2^32, different early: the difference lies beyond what a length cut to 32 bits would cover.
SUB(huge_both, 24, 400, 0) {
  constexpr size_t RES = size_t(9) << 30, PAGE = 4096; static char *base[2] = {}; if (!base[0]) for (auto &b : base) { void *q = mmap(nullptr, RES / 2, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED || mprotect(q, PAGE, PROT_READ | PROT_WRITE)) return; b = static_cast<char *>(q); }
  for (auto b : base) memset(b, 'k', PAGE); size_t low = rng.below(40), at = low + rng.below(30), n = (size_t(1) << 32) + low, m = n + (rng.flip() ? 0 : rng.below(100)); static char const D[] = {'a', 'A', '\0', char(0xff), 'z', '['}; char c = rng.pick(D); base[0][at] = c; bool swap = rng.flip(); string_view a(base[0], n), b(base[1], m); if (swap) std::swap(a, b); unsigned char x = static_cast<unsigned char>(a[at]), y = static_cast<unsigned char>(b[at]); int e = x < y ? -1 : 1, nc = lo(x) < lo(y) ? -1 : 1; vh::T("difference at %zu of 2^32+%zu", at, low);
#define QB(EXPR, WANT) do { int g_ = EXPR, w_ = WANT; EV("comparison of huge texts"); CHECK(g_ == w_, #EXPR, "%s = %d expected %d for lengths %zu and %zu different at %zu", #EXPR, g_, w_, a.size(), b.size(), at); } while (0)
  QB(sg(memcmp(a, b)), e); QB(sg(strcmp(a, b)), e); QB(sg(strcasecmp(a, b)), nc); QB(TextView::LessThan{}(TextView{a}, TextView{b}), e < 0); QB(TextView::LessThanNoCase{}(TextView{a}, TextView{b}), nc < 0); QB(TextView::CaselessEqual{}(TextView{a}, TextView{b}), false); vh::obs(vh::u64(at * 64 + low)); EV("huge pairs");
}
