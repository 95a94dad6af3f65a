#include "spaces.h"
// S01: every value's payload after any history equals the per-value map.
template <class M> static void history(Rng &rng, int maxops) {
  Win<M>::pick(rng);
  SpaceDrv<M, int> d; int n = 1 + int(rng.below(maxops)); int np = rng.pick({1, 2, 3, 7});
  int mask = int(rng.below(4)); // op mix
  for (int i = 0; i < n; ++i) {
    int a, b; d.pick_range(rng, a, b); int p = 1 + int(rng.below(np)); int op;
    switch (mask) { case 0: op = int(rng.below(2)); break; case 1: op = int(rng.below(3)); break; case 2: op = rng.chance(1, 3) ? int(rng.below(3)) : 3 + int(rng.below(NBLEND)); break; default: op = int(rng.below(3 + NBLEND)); }
    if (rng.chance(1, 12)) p = 0;
    if (rng.chance(1, 40)) { d.sp.clear(); d.model.fill(-1); vh::T("clear"); EV("clear"); }
    if (rng.chance(1, 25) && a < b) std::swap(a, b); // empty range
    d.apply(op, a, b, p);
    d.check_map();
  }
  vh::obs(u64(n));
}
SUB(hist_tiny8, 120000, 6000000, 0) { history<Tiny<8>>(rng, 24); }
SUB(hist_tiny24, 120000, 6000000, 0) { history<Tiny<24>>(rng, 60); }
SUB(hist_u8, 25000, 1000000, 0) { history<Tiny<256>>(rng, 80); }
SUB(hist_i8, 25000, 1000000, 0) { history<Int<int8_t>>(rng, 80); }
SUB(hist_u32, 40000, 1500000, 0) { history<Int<uint32_t>>(rng, 80); }
SUB(hist_u64, 30000, 1000000, 0) { history<Int<uint64_t>>(rng, 80); }
SUB(hist_int, 30000, 1000000, 0) { history<Int<int>>(rng, 80); }
SUB(hist_ip4, 30000, 1000000, 0) { history<swoc::IP4Addr>(rng, 80); }
SUB(hist_ip6, 30000, 1000000, 0) { history<swoc::IP6Addr>(rng, 80); }
// Exhaustive: all 3-op (quick: paint base pairs x third op sampled) histories over a 5 value metric.
static constexpr int K = 5, NR = K * (K + 1) / 2; // 15 ranges
static void decode(u64 code, int &op, int &a, int &b, int &p) {
  // op kinds: mark1 mark2 fill1 fill2 erase blend{0,1,3,4,5,6}x(color1)
  u64 r = code % NR, k = code / NR; a = 0; while (r >= u64(K - a)) { r -= K - a; ++a; } b = a + int(r);
  static const int OPS[][2] = {{0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 0}, {3, 1}, {4, 1}, {6, 1}, {7, 1}, {8, 1}, {9, 1}, {5, 2}};
  op = OPS[k][0]; p = OPS[k][1];
}
static constexpr u64 NOPS = NR * 12; // 180
SUB(exhaust2, NOPS *NOPS, NOPS *NOPS, vh::EXHAUSTIVE) {
  SpaceDrv<Tiny<K>, int> d; u64 c = vh::S().idx; int op, a, b, p;
  for (int i = 0; i < 2; ++i) { decode(c % NOPS, op, a, b, p); c /= NOPS; d.apply(op, a, b, p); d.check_map(); }
}
// paints then one op: all (mark,mark|fill,op) triples
SUB(exhaust3, 700000, NOPS *NOPS *NOPS, 0) {
  u64 idx = vh::S().idx; u64 c = vh::thorough() ? idx : vh::mix64(idx + (vh::S().seed << 32)) % (NOPS * NOPS * NOPS);
  SpaceDrv<Tiny<K>, int> d; int op, a, b, p;
  for (int i = 0; i < 3; ++i) { decode(c % NOPS, op, a, b, p); c /= NOPS; d.apply(op, a, b, p); d.check_map(); }
}
// The payload given to the operation is one stored in the space.
template <class M, class P> static void own_args(Rng &rng, int maxops) {
  Win<M>::pick(rng); SpaceDrv<M, P> d; int n = 1 + int(rng.below(maxops)); int np = rng.pick({2, 3, 7});
  for (int i = 0; i < n; ++i) {
    int a, b; d.pick_range(rng, a, b); int op = rng.flip() ? int(rng.below(3)) : 3 + int(rng.below(NBLEND));
    if (rng.flip()) { int p = 1 + int(rng.below(np)); P v{}; pset(v, p); DiscreteRange<M> r{Win<M>::to(a), Win<M>::to(b)}; vh::T("mark [%d,%d] %d", a, b, p); d.sp.mark(r, v); for (int k = a; k <= b; ++k) d.model[k] = p; } else d.apply_own(rng, op, a, b);
    d.check_map(); d.check_struct();
  }
}
SUB(own_text, 20000, 600000, 0) { own_args<Tiny<24>, std::string>(rng, 50); }
SUB(own_int, 20000, 600000, 0) { if (rng.flip()) own_args<Tiny<40>, int>(rng, 60); else own_args<swoc::IP6Addr, int>(rng, 60); }
// Hundreds to thousands of ranges.
SUB(large, 240, 12000, 0) { switch (rng.below(4)) { case 0: { LargeDrv<Int<uint64_t>, DiscreteSpace<Int<uint64_t>, int>> d; d.run(rng, false); break; } case 1: { LargeDrv<Int<int>, DiscreteSpace<Int<int>, int>> d; d.run(rng, false); break; } case 2: { LargeDrv<swoc::IP4Addr, DiscreteSpace<swoc::IP4Addr, int>> d; d.run(rng, false); break; } default: { LargeDrv<swoc::IP6Addr, DiscreteSpace<swoc::IP6Addr, int>> d; d.run(rng, false); } } }
