#include "spaces.h"
using vh::Owned; using vh::life;
// S04: payload lifetime accounting. A payload instance per stored range, all destroyed exactly once, memory balanced.
template <class M> static void history(Rng &rng, int maxops) {
  Win<M>::pick(rng); life().reset();
  {
    SpaceDrv<M, Owned> d; int n = 1 + int(rng.below(maxops)); int np = rng.pick({1, 2, 4});
    for (int i = 0; i < n; ++i) {
      int a, b; d.pick_range(rng, a, b); int op = int(rng.below(3 + NBLEND));
      if (rng.chance(1, 30)) { d.sp.clear(); d.model.fill(-1); vh::T("clear"); CHECK(life().live == 0, "live-after-clear", "%lld payloads live after clear", (long long)life().live); EV("clear"); }
      if (rng.chance(1, 30) && a < b) std::swap(a, b);
      if (rng.chance(1, 6)) d.apply_own(rng, op, a, b); else d.apply(op, a, b, 1 + int(rng.below(np)));
      size_t k = 0; for (auto &x : d.sp) { (void)x.payload().get(); ++k; CHECK(k < 1000, "iter-runaway", "iteration"); }
      CHECK(life().live == i64(k), "live", "%lld live payloads for %zu stored ranges after op %d [%d,%d]", (long long)life().live, k, op, a, b);
      vh::obs(k); EV("census");
    }
    d.check_map();
  }
  CHECK(life().live == 0, "live-end", "%lld payloads never destroyed", (long long)life().live);
  CHECK(life().ctor + life().copy + life().move == life().dtor, "balance", "constructions != destructions");
}
SUB(tiny8, 12000, 600000, vh::LEAK) { history<Tiny<8>>(rng, 30); }
SUB(tiny40, 6000, 300000, vh::LEAK) { history<Tiny<40>>(rng, 80); }
SUB(u64m, 4000, 200000, vh::LEAK) { history<Int<uint64_t>>(rng, 90); }
SUB(ip6, 3000, 150000, vh::LEAK) { history<swoc::IP6Addr>(rng, 90); }
// Large: enough nodes to need several arena blocks, with node recycling.
SUB(large, 60, 2000, vh::LEAK) {
  life().reset(); { DiscreteSpace<Int<uint32_t>, Owned> sp; using R = DiscreteRange<Int<uint32_t>>; size_t live = 0; std::vector<u32> k; u32 n = 50 + u32(rng.below(600));
    for (u32 r = 0; r < 3; ++r) { for (u32 i = 0; i < n; ++i) sp.mark(R{Int<uint32_t>(i * 4), Int<uint32_t>(i * 4 + 1)}, Owned(int(i)));
      CHECK(sp.count() == n && life().live == i64(n), "live", "count %zu live %lld expected %u", sp.count(), (long long)life().live, n);
      for (u32 i = 0; i < n; ++i) { auto it = sp.find(Int<uint32_t>(i * 4)); CHECK(it != sp.end() && it->payload().get() == int(i), "value", "range %u lost its payload", i); }
      u32 lo = u32(rng.below(n)), hi = lo + u32(rng.below(n - lo)); sp.erase(R{Int<uint32_t>(lo * 4), Int<uint32_t>(hi * 4 + 3)}); live = n - (hi - lo + 1);
      CHECK(sp.count() == live && life().live == i64(live), "live", "after erase count %zu live %lld expected %zu", sp.count(), (long long)life().live, live);
      if (rng.chance(1, 4)) { sp.clear(); CHECK(life().live == 0 && sp.empty(), "live-after-clear", "live %lld", (long long)life().live); }
      vh::obs(live); EV("census"); } }
  CHECK(life().live == 0, "live-end", "%lld payloads never destroyed", (long long)life().live);
}

// The blender leaves by an exception at some call.
template <class M> static void thrown(Rng &rng, int maxops) {
  Win<M>::pick(rng); life().reset();
  {
    SpaceDrv<M, Owned> d; int n = 1 + int(rng.below(maxops)); int np = rng.pick({1, 2, 4}); using W = Win<M>;
    for (int i = 0; i < n; ++i) {
      int a, b; d.pick_range(rng, a, b); int op = int(rng.below(3 + NBLEND)), p = 1 + int(rng.below(np));
      if (rng.chance(2, 3)) { d.apply(op, a, b, p); continue; }
      int kind = int(rng.below(NBLEND)), at = int(rng.below(5)), calls = 0; bool out = false; vh::T("blend%d[%d,%d] p=%d throws at call %d", kind, a, b, p, at);
      try { d.sp.blend(DiscreteRange<M>{W::to(a), W::to(b)}, p, [&](Owned &x, int c) { int v = pval(x); bool half = calls == at && (at & 1); if (calls++ == at && !half) throw 1; bool ret = blend_fn(kind, v, c); pset(x, v); if (half) throw 1; return ret; }); } catch (int) { out = true; }
      // every value has its old or its new colour, those outside the range the old one.
      std::array<int, W::N> got; got.fill(-1); size_t k = 0; int pos = 0; d.check_struct();
      for (auto &x : d.sp) { ++k; int lo = W::from(x.range().min()), hi = W::from(x.range().max()); CHECK(lo >= pos && hi >= lo && hi < W::N, "order", "range [%d,%d]", lo, hi); pos = hi + 1; for (int j = lo; j <= hi; ++j) got[j] = pval(x.payload()); }
      CHECK(life().live == i64(k), "live", "%lld live payloads for %zu stored ranges after an exception", (long long)life().live, k);
      for (int j = 0; j < W::N; ++j) { int m = d.model[j], v = m < 0 ? 0 : m, nw = blend_fn(kind, v, p) ? v : -1; bool in = j >= a && j <= b; CHECK((in && !out ? false : got[j] == m) || (in && got[j] == nw), "thrown map", "value %d has payload %d, before %d blended %d", j, got[j], m, nw); }
      d.model = got; vh::obs(u64(k * 8 + out)); if (out) EV("blends left by an exception");
    }
    d.check_map();
  }
  CHECK(life().live == 0, "live-end", "%lld payloads never destroyed", (long long)life().live); CHECK(life().ctor + life().copy + life().move == life().dtor, "balance", "constructions != destructions");
}
SUB(thrown8, 6000, 200000, vh::LEAK) { thrown<Tiny<8>>(rng, 30); }
SUB(thrown40, 4000, 200000, vh::LEAK) { if (rng.flip()) thrown<Tiny<40>>(rng, 60); else thrown<swoc::IP6Addr>(rng, 60); }
