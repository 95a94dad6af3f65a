#include "spaces.h"
// S02: sorted, disjoint, reversible, counted; queries agree with contents; mark/fill coalesce.
template <class M> static void query(Rng &rng, SpaceDrv<M, int> &d) {
  using W = Win<M>; using Drv = SpaceDrv<M, int>; constexpr int N = Drv::N; auto const &csp = d.sp;
  struct R { int a, b, p; }; std::vector<R> v;
  for (auto &n : d.sp) v.push_back({W::from(n.range().min()), W::from(n.range().max()), n.payload()});
  auto desc = [&](auto it) -> int { if (it == d.sp.end()) return -1; return W::from(it->range().min()); };
  int nq = N <= 8 ? N : 4;
  for (int q = 0; q < nq; ++q) {
    int m = N <= 8 ? q : (rng.chance(1, 2) && !v.empty() ? [&] { auto &x = v[rng.below(v.size())]; int t = (rng.flip() ? x.a : x.b) + int(rng.in(-1, 1)); return std::min(std::max(t, 0), N - 1); }() : int(rng.below(N)));
    int f = -1, lb = -1, ub = -1;
    for (auto &x : v) { if (x.a <= m && m <= x.b) f = x.a; if (x.a <= m) lb = x.a; if (x.a > m && ub < 0) ub = x.a; }
    auto it = d.sp.find(W::to(m)); CHECK(desc(it) == f, "find", "find(%d) -> range at %d expected %d", m, desc(it), f);
    auto ct = csp.find(W::to(m)); int cf = ct == csp.end() ? -1 : W::from(ct->range().min()); CHECK(cf == f, "find-const", "const find(%d) -> %d expected %d", m, cf, f);
    if (f >= 0) CHECK(it->range().contains(W::to(m)) && it->payload() == d.model[m], "find-payload", "find(%d) payload %d expected %d", m, it->payload(), d.model[m]);
    auto l = d.sp.lower_bound(W::to(m)); CHECK(desc(l) == lb, "lower_bound", "lower_bound(%d) -> %d expected %d", m, desc(l), lb);
    auto u = d.sp.upper_bound(W::to(m)); CHECK(desc(u) == ub, "upper_bound", "upper_bound(%d) -> %d expected %d", m, desc(u), ub);
    // iterators returned by queries are part of the iteration.
    if (l != d.sp.end()) { auto nx = l; ++nx; int e = -1; for (auto &x : v) if (x.a > lb) { e = x.a; break; } CHECK(desc(nx) == e, "iter-next", "++lower_bound(%d) -> %d expected %d", m, desc(nx), e); }
    EV("point_query"); vh::obs(u64(f + 1) * 131 + u64(lb + 1) * 17 + u64(ub + 1));
    int a = m, b = int(rng.in(m, N - 1)); if (rng.chance(1, 3)) b = std::min(N - 1, a + int(rng.below(4))); if (a > 0 && rng.chance(1, 12)) b = int(rng.below(a)); // reversed: empty
    auto &&[s, e] = d.sp.intersection(DiscreteRange<M>{W::to(a), W::to(b)});
    std::vector<int> got, want; size_t g = 0;
    for (auto i = s; i != e; ++i) { got.push_back(desc(i)); CHECK(++g <= v.size() + 1 && i != d.sp.end(), "intersection", "intersection [%d,%d] runs past the end", a, b); }
    if (a <= b) for (auto &x : v) if (x.a <= b && x.b >= a) want.push_back(x.a);
    if (got != want) { std::string w1, w2; for (int x : got) w1 += std::to_string(x) + ","; for (int x : want) w2 += std::to_string(x) + ","; vh::fail("intersection", "intersection [%d,%d] -> {%s} expected {%s}", a, b, w1.c_str(), w2.c_str()); }
    EV("range_query"); vh::obs(got.size());
  }
}
template <class M> static void history(Rng &rng, int maxops, bool blends) {
  Win<M>::pick(rng); SpaceDrv<M, int> d; int n = 1 + int(rng.below(maxops)); int np = rng.pick({1, 2, 4, 9}); bool blended = false;
  int style = int(rng.below(3));
  for (int i = 0; i < n; ++i) {
    int a, b; d.pick_range(rng, a, b);
    if (style == 1) b = std::min(b, a + 2); // many small ranges
    int op = int(rng.below(blends ? 3 + NBLEND : 3)); if (style == 2 && rng.chance(1, 2)) op = 2;
    if (rng.chance(1, 60)) { d.sp.clear(); d.model.fill(-1); vh::T("clear"); blended = false; }
    if (op >= 3) blended = true;
    d.apply(op, a, b, 1 + int(rng.below(np)));
    d.check_struct(); query<M>(rng, d);
    if (!blended) { int pa = -2, pp = 0; for (auto &x : d.sp) { int ra = Win<M>::from(x.range().min()); if (ra == pa + 1) { CHECK(x.payload() != pp, "coalesce", "touching ranges at %d both have payload %d after op %d [%d,%d]", ra, pp, op, a, b); EV("touching_ranges"); } pa = Win<M>::from(x.range().max()); pp = x.payload(); } }
  }
  d.check_map();
}
SUB(tiny8, 30000, 1500000, 0) { history<Tiny<8>>(rng, 24, rng.flip()); }
SUB(tiny40, 15000, 700000, 0) { history<Tiny<40>>(rng, 80, rng.flip()); }
SUB(tiny200, 3000, 150000, 0) { history<Tiny<200>>(rng, 250, rng.flip()); }
SUB(u64m, 6000, 300000, 0) { history<Int<uint64_t>>(rng, 90, rng.flip()); }
SUB(i32m, 6000, 300000, 0) { history<Int<int>>(rng, 90, rng.flip()); }
SUB(ip4, 6000, 300000, 0) { history<swoc::IP4Addr>(rng, 90, rng.flip()); }
SUB(ip6, 6000, 300000, 0) { history<swoc::IP6Addr>(rng, 90, rng.flip()); }
// Every insertion and removal order of up to 7 single value ranges (tree linkage), with all queries.
SUB(perms, 40320, 40320, vh::EXHAUSTIVE) {
  u64 c = vh::S().idx; std::vector<int> pool{0, 1, 2, 3, 4, 5, 6, 7}, ord; for (int k = 8; k > 0; --k) { ord.push_back(pool[c % k]); pool.erase(pool.begin() + c % k); c /= k; }
  SpaceDrv<Tiny<17>, int> d; for (int x : ord) { d.apply(rng.flip() ? 0 : 1, 2 * x + 1, 2 * x + 1, 1); d.check_struct(); query<Tiny<17>>(rng, d); }
  for (int i = 8; i > 1; --i) { int k = int(rng.below(i)); std::swap(ord[k], ord[i - 1]); d.apply(2, 2 * ord[i - 1] + 1, 2 * ord[i - 1] + 1, 0); d.check_struct(); query<Tiny<17>>(rng, d); }
}
// Hundreds to thousands of ranges.
SUB(large, 160, 8000, 0) { switch (rng.below(4)) { case 0: { LargeDrv<Int<uint64_t>, DiscreteSpace<Int<uint64_t>, int>> d; d.run(rng, true); break; } case 1: { LargeDrv<Int<int>, DiscreteSpace<Int<int>, int>> d; d.run(rng, true); break; } case 2: { LargeDrv<swoc::IP4Addr, DiscreteSpace<swoc::IP4Addr, int>> d; d.run(rng, true); break; } default: { LargeDrv<swoc::IP6Addr, DiscreteSpace<swoc::IP6Addr, int>> d; d.run(rng, true); } } }
