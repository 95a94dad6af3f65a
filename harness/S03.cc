#include "spaces.h"
#include <cmath>
#include <map>
// S03: number of metric comparisons per lookup grows only logarithmically, whatever the history.
struct CM { // counting metric, 64 bit
  u64 v = 0; static const CM MIN, MAX; static inline u64 n = 0;
  CM() = default; constexpr CM(u64 x) : v(x) {}
  CM &operator++() { ++v; return *this; } CM &operator--() { --v; return *this; }
  friend bool operator<(CM a, CM b) { ++n; return a.v < b.v; } friend bool operator<=(CM a, CM b) { ++n; return a.v <= b.v; } friend bool operator>(CM a, CM b) { ++n; return a.v > b.v; }
  friend bool operator>=(CM a, CM b) { ++n; return a.v >= b.v; } friend bool operator==(CM a, CM b) { ++n; return a.v == b.v; } friend bool operator!=(CM a, CM b) { ++n; return a.v != b.v; }
};
inline const CM CM::MIN{0}; inline const CM CM::MAX{~0ull};
using Space = DiscreteSpace<CM, int>; using Rg = DiscreteRange<CM>;
// Bound: tree depth <= 2 log2(N+1) for a red-black tree; a visited node costs a small constant of comparisons. A list-shaped or
// unbalanced tree exceeds this at the sizes driven; the constant is generous so that other balanced schemes stay well below.
static u64 bound(size_t n) { return u64(24 + 16 * std::log2(double(n) + 2)); }
static void probe(Space &sp, std::map<u64, u64> const &m, Rng &rng, int q) {
  u64 bd = bound(m.size());
  auto one = [&](u64 x) {
    auto it = m.upper_bound(x); bool in = it != m.begin() && (--it)->second >= x;
    CM::n = 0; auto f = sp.find(CM(x)); u64 c = CM::n; bool got = f != sp.end();
    CHECK(got == in, "find", "find(%llu) found=%d expected %d with %zu ranges", (unsigned long long)x, got, in, m.size());
    CHECK(c <= bd, "depth-find", "find of %llu used %llu comparisons with %zu ranges (bound %llu)", (unsigned long long)x, (unsigned long long)c, m.size(), (unsigned long long)bd);
    vh::obs(c); EV("lookup");
    CM::n = 0; sp.lower_bound(CM(x)); c = CM::n; CHECK(c <= bd, "depth-lower", "lower_bound used %llu comparisons with %zu ranges (bound %llu)", (unsigned long long)c, m.size(), (unsigned long long)bd);
    CM::n = 0; sp.upper_bound(CM(x)); c = CM::n; CHECK(c <= bd, "depth-upper", "upper_bound used %llu comparisons with %zu ranges (bound %llu)", (unsigned long long)c, m.size(), (unsigned long long)bd);
  };
  for (int i = 0; i < q; ++i) { if (!m.empty()) { auto it = m.lower_bound(rng.below(m.rbegin()->first + 3)); if (it == m.end()) it = m.begin(); one(it->first); one(it->second + 1); } one(rng.u() >> rng.below(60)); }
  if (!m.empty()) { one(m.begin()->first); one(m.rbegin()->first); one(0); one(~0ull); }
}
static void all(Space &sp, std::map<u64, u64> const &m) { u64 bd = bound(m.size()); u64 mx = 0; for (auto &x : m) { CM::n = 0; auto f = sp.find(CM(x.first)); CHECK(f != sp.end(), "find", "lost range %llu", (unsigned long long)x.first); mx = std::max(mx, CM::n); CHECK(CM::n <= bd, "depth-find", "find used %llu comparisons with %zu ranges (bound %llu)", (unsigned long long)CM::n, m.size(), (unsigned long long)bd); EV("lookup"); } vh::obs(mx); }
static void build(Rng &rng, size_t n, int order, int how) {
  Space sp; std::map<u64, u64> m; std::vector<u64> keys(n);
  for (size_t i = 0; i < n; ++i) keys[i] = (i + 1) * 4;
  switch (order) {
  case 0: break; case 1: std::reverse(keys.begin(), keys.end()); break;
  case 2: for (size_t i = n; i > 1; --i) std::swap(keys[i - 1], keys[rng.below(i)]); break;
  case 3: { std::vector<u64> k; for (size_t i = 0, j = n; i < j;) { k.push_back(keys[i++]); if (i < j) k.push_back(keys[--j]); } keys = k; break; } // outside in
  case 4: { std::vector<u64> k; size_t mid = n / 2; for (size_t d = 0; d <= n; ++d) { if (mid + d < n) k.push_back(keys[mid + d]); if (d && mid >= d) k.push_back(keys[mid - d]); } keys = k; break; } // inside out
  case 5: { std::vector<u64> k; size_t b = 1 + rng.below(40); for (size_t s = 0; s < n; s += b) for (size_t i = std::min(n, s + b); i > s; --i) k.push_back(keys[i - 1]); keys = k; break; } // blocks reversed
  }
  static char const *names[] = {"ascending", "descending", "shuffled", "outside-in", "inside-out", "block-reversed"};
  vh::T("build n=%zu order=%s how=%d", n, names[order], how);
  int col = 0;
  for (u64 k : keys) { Rg r{CM(k), CM(k + 1)}; ++col; switch (how) { case 0: sp.mark(r, col & 7); break; case 1: sp.fill(r, col & 7); break; default: sp.blend(r, 1 + (col & 7), [](int &p, int c) { p = c; return true; }); } m[k] = k + 1; EV("insert");
    if ((col & (col - 1)) == 0) probe(sp, m, rng, 2); }
  CHECK(sp.count() == n, "count", "count %zu expected %zu", sp.count(), n);
  all(sp, m);
  // removals in some order, then reinsertion churn
  int ro = int(rng.below(5)); vh::T("remove order %d", ro);
  size_t keep = rng.below(n / 4 + 1); size_t steps = 0;
  while (m.size() > keep) {
    auto it = ro == 0 ? m.begin() : ro == 1 ? std::prev(m.end()) : m.lower_bound(4 * rng.below(n + 1)); if (it == m.end()) it = m.begin();
    if (ro == 4) { it = m.lower_bound(2 * n); if (it == m.end()) it = m.begin(); } // middle out
    sp.erase(Rg{CM(it->first), CM(it->second)}); m.erase(it); EV("remove");
    if (ro == 3 && rng.chance(1, 3)) { u64 k = 4 * (1 + rng.below(n)); if (!m.count(k)) { sp.mark(Rg{CM(k), CM(k + 1)}, int(rng.below(8))); m[k] = k + 1; } }
    if (++steps % 97 == 0) probe(sp, m, rng, 1);
  }
  CHECK(sp.count() == m.size(), "count", "count %zu expected %zu", sp.count(), m.size());
  all(sp, m); probe(sp, m, rng, 8);
}
SUB(orders, 360, 6000, 0) { u64 i = vh::S().idx; build(rng, 1u << (4 + (i / 18) % 9), int(i % 6), int(i / 6 % 3)); }
SUB(sizes, 250, 6000, 0) { build(rng, 1 + rng.below(3000), int(rng.below(6)), int(rng.below(3))); }
SUB(small, 5000, 100000, 0) { build(rng, 1 + rng.below(40), int(rng.below(6)), int(rng.below(3))); }
SUB(big, 8, 60, 0) { build(rng, 30000, int(vh::S().idx % 6), int(rng.below(3))); }
// Adversarial sliding window: remove one end, add at the other, long after.
SUB(window, 60, 1500, 0) {
  Space sp; std::map<u64, u64> m; size_t w = 1 + rng.below(300); bool up = rng.flip(); u64 base = up ? 0 : 4ull << 40; size_t steps = 4000;
  vh::T("window w=%zu up=%d", w, up);
  for (size_t i = 0; i < steps; ++i) { u64 k = up ? base + 4 * (i + 1) : base - 4 * (i + 1); sp.mark(Rg{CM(k), CM(k + 1)}, int(i & 7)); m[k] = k + 1; EV("insert");
    if (m.size() > w) { auto it = up ? m.begin() : std::prev(m.end()); sp.erase(Rg{CM(it->first), CM(it->second)}); m.erase(it); EV("remove"); }
    if (i % 211 == 0) probe(sp, m, rng, 2); }
  all(sp, m);
}
