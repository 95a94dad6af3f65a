#include "spaces.h"
#include <bitset>
// R01: range predicates and operators equal set algebra.
using Rel = swoc::DiscreteRangeRelation; using Edge = swoc::DiscreteRangeEdgeRelation;
template <class R, class F> static void pair_check(R const &x, R const &y, std::bitset<64> const &X, std::bitset<64> const &Y, int n, F to, bool whole = false) {
  bool xe = X.none(), ye = Y.none(); auto inter = X & Y;
  auto lo = [&](std::bitset<64> const &b) { for (int i = 0; i < n; ++i) if (b[i]) return i; return -1; };
  auto hi = [&](std::bitset<64> const &b) { for (int i = n; i-- > 0;) if (b[i]) return i; return -1; };
  auto same = [&](R const &r, std::bitset<64> const &s, char const *w) {
    CHECK(r.empty() == s.none(), w, "%s: empty() %d expected %d (x=[%d,%d] y=[%d,%d])", w, r.empty(), s.none(), lo(X), hi(X), lo(Y), hi(Y));
    if (s.any()) CHECK(r.min() == to(lo(s)) && r.max() == to(hi(s)), w, "%s wrong for x=[%d,%d] y=[%d,%d]", w, lo(X), hi(X), lo(Y), hi(Y));
    for (int i = 0; i < n; ++i) CHECK(r.contains(to(i)) == s[i], w, "%s: contains(%d) wrong for x=[%d,%d] y=[%d,%d]", w, i, lo(X), hi(X), lo(Y), hi(Y));
  };
vh::obs(X.to_ullong() * 0x9e3779b97f4a7c15ull ^ Y.to_ullong());
#define Q(EXPR, WANT) do { bool g_ = bool(EXPR), w_ = bool(WANT); CHECK(g_ == w_, #EXPR, "%s = %d expected %d for x=[%d,%d] y=[%d,%d]", #EXPR, g_, w_, lo(X), hi(X), lo(Y), hi(Y)); vh::obs(g_); EV("predicate"); } while (0)
  same(x, X, "self"); Q(!x, xe); Q(static_cast<bool>(x), !xe); Q(x.is_singleton(), X.count() == 1); Q(x.is_maximal(), whole && int(X.count()) == n);
  Q(x == y, X == Y); Q(x != y, X != Y); Q(operator==(x, y), X == Y);
  Q(x.has_intersection_with(y), inter.any()); Q(x ^ y, inter.any());
  bool ladj = !xe && !ye && hi(X) + 1 == lo(Y), radj = !xe && !ye && hi(Y) + 1 == lo(X);
  Q(x.is_left_adjacent_to(y), ladj); Q(x.is_adjacent_to(y), ladj || radj); Q(x.has_union(y), inter.any() || ladj || radj);
  Q(x.is_superset_of(y), inter == Y); Q(x.is_subset_of(y), inter == X); Q(x.is_strict_superset_of(y), inter == Y && X != Y); Q(x.is_strict_subset_of(y), inter == X && X != Y);
  Q(x <= y, inter == X); Q(x >= y, inter == Y); Q(x < y, inter == X && X != Y); Q(x > y, inter == Y && X != Y);
  same(x.intersection(y), inter, "intersection"); { R t = x; t &= y; same(t, inter, "operator&="); }
  std::bitset<64> h; if (!xe || !ye) { int a = xe ? lo(Y) : ye ? lo(X) : std::min(lo(X), lo(Y)), b = std::max(hi(X), hi(Y)); for (int i = a; i <= b; ++i) h[i] = true; }
  same(x.hull(y), h, "hull"); { R t = x; t |= y; same(t, h, "operator|="); }
  Rel want = inter.none() ? (ladj || radj ? Rel::ADJACENT : Rel::NONE) : X == Y ? Rel::EQUAL : inter == X ? Rel::SUBSET : inter == Y ? Rel::SUPERSET : Rel::OVERLAP;
  Rel got = x.relationship(y); CHECK(got == want, "relationship", "relationship %d expected %d for x=[%d,%d] y=[%d,%d]", int(got), int(want), lo(X), hi(X), lo(Y), hi(Y)); vh::obs(int(got) + 10);
  if (!xe && !ye) { Edge we = hi(X) < lo(Y) ? (hi(X) + 1 < lo(Y) ? Edge::GAP : Edge::ADJ) : lo(Y) < lo(X) ? Edge::NONE : Edge::OVLP; Edge ge = x.left_edge_relationship(y);
    CHECK(ge == we, "edge", "left_edge_relationship %d expected %d for x=[%d,%d] y=[%d,%d]", int(ge), int(we), lo(X), hi(X), lo(Y), hi(Y));
    typename R::lexicographic_order lt; bool wl = lo(X) != lo(Y) ? lo(X) < lo(Y) : hi(X) < hi(Y); Q(lt(x, y), wl); }
}
// Exhaustive: all pairs over a 7 value metric including its limits and the empty range.
static constexpr int K = 7, NR = K * (K + 1) / 2 + 1;
static void nth(int k, int &a, int &b) { for (a = 0; a < K; ++a) { if (k < K - a) { b = a + k; return; } k -= K - a; } a = 1; b = 0; }
template <class M, class F> static auto mk(int k, std::bitset<64> &s, F to) { int a, b; nth(k, a, b); DiscreteRange<M> r; s.reset(); if (a <= b) { r = DiscreteRange<M>{to(a), to(b)}; for (int i = a; i <= b; ++i) s[i] = true; } return r; }
SUB(exhaustive, NR *NR, NR *NR, vh::EXHAUSTIVE) {
  int i = int(vh::S().idx % NR), j = int(vh::S().idx / NR); std::bitset<64> X, Y; auto to = [](int v) { return Tiny<K>(v); };
  auto x = mk<Tiny<K>>(i, X, to); auto y = mk<Tiny<K>>(j, Y, to); vh::T("pair %d %d", i, j); pair_check(x, y, X, Y, K, to, true);
}
// Random windows at either end or the middle of large metrics; also mutators.
template <class M, class F> static void rnd(Rng &rng, bool lowEnd, bool highEnd, F to, int n) {
  std::bitset<64> X, Y; auto mkr = [&](std::bitset<64> &s) { DiscreteRange<M> r; s.reset(); if (rng.chance(1, 10)) { if (rng.flip()) { r = DiscreteRange<M>{to(1), to(2)}; r.clear(); } return r; }
    int a = int(rng.below(n)), b = int(rng.below(n)); if (a > b) std::swap(a, b); if (rng.chance(1, 6)) b = a;
    switch (rng.below(5)) { case 0: r.assign(to(a), to(b)); break; case 1: r = DiscreteRange<M>{to(a), to(b)}; break; case 2: r = DiscreteRange<M>{to(0)}; r.assign_min(to(a)).assign_max(to(b)); break;
      case 3: if (b + 1 < n) { r.assign(to(a), to(b + 1)); r.clip_max(); } else r.assign(to(a), to(b)); break; default: if (a == b) { if (rng.flip()) r.assign(to(a)); else r = DiscreteRange<M>(to(a)); } else r.assign(to(a), to(b)); }
    for (int i = a; i <= b; ++i) s[i] = true; return r; };
  auto x = mkr(X); auto y = mkr(Y); (void)lowEnd; (void)highEnd; vh::T("x=%s y=%s", X.to_string().c_str(), Y.to_string().c_str()); pair_check(x, y, X, Y, n, to);
}
#define RND(NAME, M, TO) SUB(NAME, 60000, 2000000, 0) { int sel = int(rng.below(3)); constexpr int n = 24; auto to = [&](int i) -> M TO; rnd<M>(rng, sel == 0, sel == 2, to, n); }
RND(r_u32, unsigned, { return sel == 0 ? unsigned(i) : sel == 1 ? 0x7ffffff0u + i : ~0u - (n - 1) + unsigned(i); })
RND(r_int, int, { return sel == 0 ? INT_MIN + i : sel == 1 ? i - 12 : INT_MAX - (n - 1) + i; })
RND(r_u8, uint8_t, { return uint8_t(sel == 0 ? i : sel == 1 ? 116 + i : 255 - (n - 1) + i); })
RND(r_u64, uint64_t, { return sel == 0 ? uint64_t(i) : sel == 1 ? 0xfffffff0ull + i : ~0ull - (n - 1) + uint64_t(i); })
RND(r_ip4, swoc::IP4Addr, { return swoc::IP4Addr(in_addr_t(sel == 0 ? unsigned(i) : sel == 1 ? 0x0afffff0u + i : ~0u - (n - 1) + unsigned(i))); })
RND(r_ip6, swoc::IP6Addr, { return Win<swoc::IP6Addr>::mk(sel == 0 ? vh::u128(i) : sel == 1 ? (vh::u128(7) << 64) - 12 + i : ~vh::u128(0) - (n - 1) + vh::u128(i)); })
// Empty ranges of any form (a minimum above the maximum): no values, and the identity for hulls.
SUB(inverted, 20000, 400000, 0) {
  using R = DiscreteRange<int>; int b = int(rng.in(-500, 500)), a = b + 1 + int(rng.below(rng.flip() ? 3 : 900)); R e{a, b}; if (rng.chance(1, 4)) { e = R{a}; e.clip_max(); } int c = int(rng.in(-1000, 1000)), d = c + int(rng.below(rng.flip() ? 3 : 900)); R y{c, d}, n; vh::T("empty [%d,%d] with [%d,%d]", e.min(), e.max(), c, d);
  CHECK(e.empty() && !e && !static_cast<bool>(e), "empty", "not empty"); for (int v : {a, b, e.max(), c, d, a - 1, b + 1}) CHECK(!e.contains(v), "contains", "%d", v);
  CHECK(e.hull(y) == y && y.hull(e) == y, "hull", "with an empty range"); { R t = e; t |= y; CHECK(t == y, "operator|=", "empty |= [%d,%d] is [%d,%d]", c, d, t.min(), t.max()); } { R t = y; t |= e; CHECK(t == y, "operator|=", "[%d,%d] |= empty is [%d,%d]", c, d, t.min(), t.max()); } { R t = n; t |= e; CHECK(t.empty(), "operator|=", "of empty ranges"); }
  { R t = e; t &= y; CHECK(t.empty(), "operator&=", "empty"); } { R t = y; t &= e; CHECK(t.empty(), "operator&=", "empty"); } CHECK(e.intersection(y).empty() && y.intersection(e).empty(), "intersection", "with an empty range"); vh::obs(vh::u64(a - b) * 4096 + vh::u64(d - c)); EV("inverted ranges");
}
