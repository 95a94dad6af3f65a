// A02: arena accounting matches reality and all memory is returned.
#include "arena.h"
using namespace vh; using namespace ar;

SUB(histories, 60000, 800000, LEAK) { Drv d(rng, false, true); d.run(rng.chance(1, 10) ? 150 : 10 + rng.below(50)); }

// Freeze / thaw heavy histories.
SUB(generations, 40000, 400000, LEAK) {
  Drv d(rng, false, true); d.create();
  for (u64 i = 8 + rng.below(30); i; --i) {
    switch (rng.below(6)) { case 0: d.op_freeze(); break; case 1: d.op_thaw(); break; case 2: d.op_require(); break; case 3: d.op_discard(); break; default: d.op_alloc(); break; }
    d.account("generation");
    if (rng.chance(1, 25)) d.op_move();
  }
  d.destroy();
}

// Documented workflow: coalescing into a single reservation.
SUB(coalesce, 15000, 150000, LEAK) {
  Drv d(rng, false, true); d.create(true);
  for (u64 i = 1 + rng.below(60); i; --i) { size_t n = rng.below(rng.chance(1, 10) ? 3000 : 200); auto m0 = sys().mallocs; MemSpan<void> s; { Watch w; s = d.a().alloc(n); } d.admit(s, n, 1); d.check_hint(m0); }
  size_t tot = d.a().size(); auto cur = d.act; d.op_freeze(); if (rng.flip()) { /* default hint only */ }
  u64 m0 = sys().mallocs; bool dflt = d.hint == i64(tot);
  for (auto &x : cur) { MemSpan<void> s; { Watch w; s = d.a().alloc(x.n); } d.admit(s, x.n, 1); if (x.n && s.size() == x.n) memcpy(s.data(), x.p, x.n), d.act.back().seed = x.seed; }
  if (dflt) CHECK(sys().mallocs - m0 <= 1, "coalesce", "%llu reservations to copy %zu bytes after freezing", (unsigned long long)(sys().mallocs - m0), tot);
  d.hint = -1; d.account("copied"); CHECK(d.a().size() == tot, "coalesce", "size %zu copied %zu", d.a().size(), tot);
  d.op_thaw(); CHECK(d.a().size() == tot && d.a().allocated_size() == tot, "coalesce", "after thaw"); obs(u64(tot)); d.destroy();
}

// Multi-megabyte allocations and hints.
SUB(large, 120, 3000, LEAK) { Drv d(rng, false, true); d.big = true; d.run(6 + rng.below(20)); }

// Thousands of allocations and hundreds of blocks; reconcile now and then.
SUB(many, 24, 400, LEAK) {
  Drv d(rng, false, true); d.create(); size_t n = 3000 + rng.below(9000);
  for (size_t i = 0; i < n; ++i) {
    switch (rng.below(600)) { case 0: d.op_freeze(); break; case 1: d.op_thaw(); break; case 2: d.op_require(); break; case 3: d.op_discard_all(); break; default: if (rng.chance(1, 5)) d.op_typed(); else if (rng.chance(1, 8)) d.op_discard(); else d.op_alloc(); }
    if (i % 97 == 0) d.account("many");
  }
  if (rng.chance(1, 2)) d.op_move();
  d.account("many"); obs(u64(d.a().reserved_size())); d.destroy();
}

// Accounting past 2^31 and 2^32 bytes: pieces of a static block of reserved address space (nothing of it but the block header is touched), then heap blocks, frozen and thawed.
#include <sys/mman.h>
SUB(huge, 3000, 60000, LEAK) {
  constexpr size_t RES = size_t(12) << 30; static char *base = [] { void *q = mmap(nullptr, RES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return q == MAP_FAILED ? nullptr : static_cast<char *>(q); }(); if (!base) return; /* no address space here: its events are missing from the evidence */
  static int const bits[] = {12, 20, 28, 30, 31, 32, 33}; MemArena m(MemSpan<void>{base, RES}); size_t res = m.reserved_size(), sum = 0; CHECK(m.allocated_size() == 0 && res <= RES && res + 4096 >= RES && m.remaining() == res, "huge accounting", "new: allocated %zu reserved %zu", m.allocated_size(), res);
  for (int k = 0; k < 8; ++k) {
    size_t r = m.remaining(), n = rng.flip() ? rng.below(r + 1) : (size_t(1) << rng.pick(bits)) + rng.below(64) - 32; if (n > r) n = rng.below(100); if (n > r) break; auto s = m.alloc(n); CHECK(s.size() == n, "huge accounting", "%zu bytes for %zu", s.size(), n); sum += n; T("alloc %zu", n);
    CHECK(m.allocated_size() == sum && m.reserved_size() == res && m.remaining() == r - n, "huge accounting", "after %zu: allocated %zu reserved %zu remaining %zu, expected %zu %zu %zu", n, m.allocated_size(), m.reserved_size(), m.remaining(), sum, res, r - n);
    if (n && rng.chance(1, 4)) { m.discard(s); sum -= n; CHECK(m.allocated_size() == sum && m.remaining() == r, "huge accounting", "after discard of %zu: allocated %zu expected %zu", n, m.allocated_size(), sum); } obs(u64(n)); EV("huge pieces");
  }
  m.freeze(64); CHECK(m.allocated_size() == sum && m.reserved_size() >= res && m.remaining() == 0, "huge accounting", "frozen: allocated %zu expected %zu, reserved %zu of %zu", m.allocated_size(), sum, m.reserved_size(), res);
  MemArena o(std::move(m)); CHECK(o.allocated_size() == sum && o.reserved_size() >= res && m.allocated_size() == 0 && m.reserved_size() == 0, "huge accounting", "moved: allocated %zu expected %zu, reserved %zu", o.allocated_size(), sum, o.reserved_size());
  size_t n = 1 + rng.below(200); o.alloc(n); CHECK(o.allocated_size() == sum + n && o.reserved_size() > res, "huge accounting", "after freeze: allocated %zu expected %zu", o.allocated_size(), sum + n); o.thaw(); CHECK(o.allocated_size() == n, "huge accounting", "thawed: allocated %zu expected %zu", o.allocated_size(), n); EV("huge arenas");
}
