// A01: arena allocations are aligned, disjoint, stable and alive until released.
#include "arena.h"
using namespace vh; using namespace ar;

SUB(histories, 60000, 800000, LEAK) { Drv d(rng, true, false); d.run(rng.chance(1, 10) ? 150 : 10 + rng.below(50)); }

// Every pairing of (fill level, size, alignment) around the end of a block.
SUB(block_edges, 30000, 300000, LEAK) {
  Drv d(rng, true, false); d.create();
  for (int round = 0; round < 4; ++round) {
    size_t r = d.a().remaining();
    if (r > 8) { size_t leave = rng.below(std::min<size_t>(r, 70)); if (r - leave < 20000) { MemSpan<void> s; { Watch w; s = d.a().alloc(r - leave); } d.admit(s, r - leave, 1); } }
    for (int k = 0; k < 6; ++k) {
      size_t n = rng.below(40), al = size_t(1) << rng.below(8); if (rng.chance(1, 4)) n = d.a().remaining() > 5000 ? 9 : d.a().remaining() - std::min<size_t>(d.a().remaining(), rng.below(9));
      T("edge alloc(%zu,%zu) remaining %zu", n, al, d.a().remaining());
      MemSpan<void> s; { Watch w; s = d.a().alloc(n, al); } d.admit(s, n, al); obs(u64(n * 4096 + al));
    }
    if (rng.chance(1, 3)) { T("freeze"); { Watch w; d.a().freeze(rng.below(300)); } d.drop(d.frz); d.frz = std::move(d.act); d.act.clear(); }
    d.verify_all("edge");
  }
  d.contains_all("edge"); d.destroy();
}

// Very large alignments and oversized requests.
SUB(oversized, 12000, 120000, LEAK) {
  Drv d(rng, true, false); d.create();
  for (int i = 0; i < 12; ++i) {
    size_t al = size_t(1) << rng.below(17), n = rng.chance(1, 3) ? rng.below(3) : rng.chance(1, 2) ? 4000 + rng.below(70000) : rng.below(5000);
    T("alloc(%zu,%zu)", n, al); MemSpan<void> s; { Watch w; s = d.a().alloc(n, al); } d.admit(s, n, al); obs(u64(n + al));
    if (rng.chance(1, 6)) d.op_freeze(); if (rng.chance(1, 6)) d.op_thaw(); if (rng.chance(1, 8)) d.op_move();
  }
  d.verify_all("oversized"); d.contains_all("oversized"); d.destroy();
}

// Self contained (inverted) arenas: the arena object lives in its own memory.
SUB(inverted, 20000, 200000, LEAK) {
  size_t h = rng.pick<size_t>({0, 1, 100, 500, 4096, rng.below(3000)});
  MemArena::unique_ptr p(nullptr, MemArena::destroyer);
  std::vector<A> pre; u64 ids = 0;
  auto put = [&](MemArena &m) { A x{nullptr, rng.below(rng.chance(1, 6) ? 6000 : 60), size_t(1) << rng.below(5), u8(rng.u()), ids++}; x.p = static_cast<char *>(m.alloc(x.n, x.align).data()); CHECK(0 == (uintptr_t(x.p) & (x.align - 1)), "allocation alignment", "inverted"); for (size_t i = 0; i < x.n; ++i) x.p[i] = char(pat(x.seed, i)); pre.push_back(x); };
  if (rng.flip()) { T("construct_self_contained(%zu)", h); p.reset(MemArena::construct_self_contained(h)); }
  else {
    T("manual inversion"); MemArena ta{h}; for (u64 i = rng.below(5); i; --i) put(ta);
    p.reset(ta.make<MemArena>(std::move(ta))); for (auto &x : pre) if (x.n) CHECK(!ta.contains(x.p) && p->contains(x.p), "inverted", "allocation did not move with the arena");
  }
  CHECK(p->contains(p.get()), "inverted", "arena does not contain itself");
  for (u64 i = rng.below(40); i; --i) put(*p);
  for (size_t i = 0; i < pre.size(); ++i) for (size_t j = i + 1; j < pre.size(); ++j) if (pre[i].n && pre[j].n) CHECK(pre[i].p + pre[i].n <= pre[j].p || pre[j].p + pre[j].n <= pre[i].p, "overlap", "inverted");
  char const *lo = reinterpret_cast<char const *>(p.get()), *hi = lo + sizeof(MemArena);
  for (auto &x : pre) { if (x.n) CHECK(x.p + x.n <= lo || x.p >= hi, "overlap", "allocation overlaps the arena object"); for (size_t i = 0; i < x.n; ++i) CHECK(u8(x.p[i]) == pat(x.seed, i), "allocation contents changed", "inverted"); }
  // Coalesce as documented: freeze, move arena to fresh memory, thaw.
  if (rng.flip()) {
    T("coalesce"); p->freeze(rng.flip() ? 0 : 800); std::vector<A> nv;
    for (auto &x : pre) { A y = x; y.p = static_cast<char *>(p->alloc(x.n, x.align).data()); if (x.n) memcpy(y.p, x.p, x.n); nv.push_back(y); }
    auto np = p->make<MemArena>(std::move(*p)); p.release(); p.reset(np); p->thaw();
    for (auto &x : nv) for (size_t i = 0; i < x.n; ++i) CHECK(u8(x.p[i]) == pat(x.seed, i), "allocation contents changed", "after coalescing"); EV("coalesced inverted arenas");
    CHECK(p->frozen_begin() == p->frozen_end() && p->contains(np), "inverted", "coalescing failed");
  }
  obs(u64(p->reserved_size())); EV("inverted arenas");
}

// Static block of every small size: either rejected or fully usable inside its bounds.
SUB(static_sizes, 20000, 200000, LEAK) {
  size_t n = rng.below(rng.flip() ? 120 : 1200), off = rng.below(16); std::unique_ptr<char[]> raw(new char[n + off + 1]);
  bool ok = true; T("static %zu off %zu", n, off);
  try {
    MemArena m{MemSpan<void>{raw.get() + off, n}}; char *base = raw.get() + off; size_t tot = 0;
    size_t r = m.remaining(); CHECK(r <= n, "static block bounds", "remaining %zu of %zu", r, n);
    bool heap = false; std::vector<std::pair<char *, size_t>> v;
    for (int i = 0; i < 40; ++i) { size_t k = rng.below(40); auto s = m.alloc(k, size_t(1) << rng.below(4)); char *q = static_cast<char *>(s.data()); memset(q, i, k); v.push_back({q, k}); bool in = q >= base && q + k <= base + n; if (!in && k) heap = true; tot += k; }
    for (size_t i = 0; i < v.size(); ++i) for (size_t b = 0; b < v[i].second; ++b) CHECK(v[i].first[b] == char(i), "allocation contents changed", "static block");
    obs(u64(heap)); obs(u64(r)); m.freeze(); auto z = m.alloc(10); CHECK(!(z.data() >= base && z.data() < base + n), "static block", "allocation in the static block while frozen");
    for (size_t i = 0; i < v.size(); ++i) for (size_t b = 0; b < v[i].second; ++b) CHECK(v[i].first[b] == char(i), "allocation contents changed", "static block frozen");
    memset(z.data(), 0x33, 10); m.thaw(); for (int i = 0; i < 20; ++i) { auto s = m.alloc(rng.below(30)); memset(s.data(), 1, s.size()); } for (int b = 0; b < 10; ++b) CHECK(static_cast<char *>(z.data())[b] == 0x33, "allocation contents changed", "after thaw");
  } catch (std::domain_error const &) { ok = false; }
  if (n >= 64 + 7) CHECK(ok, "static block", "block of %zu rejected", n);
  obs(u64(ok));
}

// Multi-megabyte allocations, hints, static blocks and alignments.
SUB(large, 80, 2000, LEAK) { Drv d(rng, true, false); d.big = true; d.run(6 + rng.below(14)); }

// Thousands of live allocations across many blocks and generations.
SUB(many, 24, 400, LEAK) {
  Drv d(rng, true, false); d.create(); size_t n = 3000 + rng.below(9000);
  for (size_t i = 0; i < n; ++i) { switch (rng.below(400)) { case 0: d.op_freeze(); break; case 1: d.op_thaw(); break; case 2: d.op_require(); break; default: if (rng.chance(1, 5)) d.op_typed(); else if (rng.chance(1, 5)) d.op_localize(); else d.op_alloc(); } }
  if (rng.chance(1, 2)) d.op_move();
  obs(u64(d.act.size())); d.verify_all("many"); d.contains_all("many"); d.destroy();
}

// Requests past 2^31 and 2^32 bytes in a static block of reserved address space; only the ends of each piece are touched.
#include <sys/mman.h>
SUB(huge_static, 3000, 60000, 0) {
  constexpr size_t RES = size_t(12) << 30; static char *base = [] { void *q = mmap(nullptr, RES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return q == MAP_FAILED ? nullptr : static_cast<char *>(q); }(); if (!base) return; /* no address space here: its events are missing from the evidence */
  static int const bits[] = {12, 16, 20, 28, 30, 31, 32, 33}; size_t off = rng.below(16), total = RES - 16 - rng.below(1 << 20); if (rng.chance(1, 3)) total = (size_t(1) << rng.pick({20, 31, 32, 33})) + rng.below(4096);
  std::vector<std::pair<char *, size_t>> v; auto drop = [&](char *p) { auto a = uintptr_t(p) & ~uintptr_t(4095); madvise(reinterpret_cast<void *>(a), 8192, MADV_DONTNEED); };
  { MemArena m(MemSpan<void>{base + off, total}); CHECK(m.remaining() <= total && m.reserved_size() <= total && m.remaining() + 4096 >= total, "static block", "remaining %zu reserved %zu of %zu", m.remaining(), m.reserved_size(), total); size_t sum = 0;
    for (int k = 0; k < 12; ++k) {
      size_t r = m.remaining(), al = size_t(1) << rng.below(8), n = rng.chance(1, 3) ? rng.below(r + 1) : rng.chance(1, 3) ? r - std::min<size_t>(r, rng.below(300)) : (size_t(1) << rng.pick(bits)) + rng.below(64) - 32; if (n + al > r || n < 2) { n = 2 + rng.below(64); if (n + al > r) break; }
      T("alloc %zu align %zu of %zu", n, al, r); auto s = m.alloc(n, al); auto p = static_cast<char *>(s.data()); CHECK(s.size() == n && 0 == (uintptr_t(p) & (al - 1)), "allocation alignment", "%zu bytes for %zu at %p align %zu", s.size(), n, s.data(), al);
      if (p + n > base + off && p < base + off + total) CHECK(p >= base + off && p + n <= base + off + total, "static block bounds", "piece [%td,+%zu) of %zu", p - base, n, total);
      for (auto [q, c] : v) CHECK(p >= q + c || q >= p + n, "allocations overlap", "[%td,+%zu) and [%td,+%zu)", p - base, n, q - base, c);
      sum += n; CHECK(m.allocated_size() >= sum && m.contains(p) && m.contains(p + n - 1), "contains", "allocated_size %zu after %zu", m.allocated_size(), sum); p[0] = char(k); p[n - 1] = char(k + 100); v.emplace_back(p, n); obs(u64(n)); EV("huge allocations");
    }
    for (size_t k = 0; k < v.size(); ++k) CHECK(v[k].first[0] == char(k) && v[k].first[v[k].second - 1] == char(k + 100), "allocation contents changed", "huge piece %zu", k);
    for (auto [q, c] : v) if (q >= base && q < base + RES) { drop(q); drop(q + c - 1); }
  }
  drop(base + off);
}

// Requests which no system can satisfy: refused by an exception, everything already there stays as it was.
SUB(impossible, 4000, 100000, LEAK) {
  Drv d(rng, true, false); d.create();
  auto big = [&]() -> size_t { size_t n; switch (rng.below(6)) { case 0: n = size_t(-1) - rng.below(100); break; case 1: n = size_t(PTRDIFF_MAX) + size_t(rng.in(-100, 100)); break; case 2: n = (size_t(1) << (48 + rng.below(16))) + size_t(rng.in(-3, 3)); break; case 3: n = size_t(-1) - rng.below(20000); break; case 4: n = size_t(0) - (size_t(1) << (4 + rng.below(40))); break; default: n = rng.u() | size_t(1) << 50; } return n; };
  for (int i = 0, k = 2 + int(rng.below(20)); i < k; ++i) {
    if (rng.flip()) { size_t al = size_t(1) << rng.below(8), n = rng.below(600); MemSpan<void> s; { Watch w; s = d.a().alloc(n, al); } d.admit(s, n, al); if (rng.chance(1, 8)) d.op_freeze(); if (rng.chance(1, 8)) d.op_thaw(); continue; }
    size_t n = big(), al = rng.flip() ? 1 : size_t(1) << rng.below(rng.flip() ? 5 : 13); unsigned what = unsigned(rng.below(6)); bool threw = false; size_t sz = d.a().size(), all = d.a().allocated_size(), res = d.a().reserved_size(); T("impossible %u: %zu align %zu", what, n, al);
    try { Watch w;
      switch (what) { case 0: case 1: d.a().alloc(n, al); break; case 2: d.a().require(n, al); break; case 3: d.a().remnant(n, al); break;
      case 4: if (rng.flip()) d.a().alloc_span<u64>(n); else d.a().alloc_span<vh::u128>(n / 16 + 1 + rng.below(3)); break;
      default: { std::pmr::memory_resource &r = d.a(); (void)r.allocate(n, al); } }
    } catch (std::exception const &) { threw = true; }
    CHECK(threw, "impossible", "request %u for %zu bytes aligned %zu was accepted", what, n, al);
    CHECK(d.a().size() == sz && d.a().allocated_size() == all && d.a().reserved_size() == res, "impossible accounting", "refused request of %zu: size %zu was %zu, allocated %zu was %zu, reserved %zu was %zu", n, d.a().size(), sz, d.a().allocated_size(), all, d.a().reserved_size(), res); obs(u64(what)); EV("impossible requests refused");
  }
  d.verify_all("impossible"); d.contains_all("impossible"); d.destroy();
}

// Allocations of gigabytes (touched only here and there).
SUB(gigabytes, 40, 400, 0) {
#if VH_ASAN
  std::optional<MemArena> box; bool inverted = false; if (rng.flip()) box.emplace(); else box.emplace(rng.below(70000)); MemArena &a = *box; (void)inverted;
  struct P { char *p; size_t n; }; std::vector<P> live; size_t total = 0, gen = 0; auto spots = [&](P const &x, auto f) { size_t at[] = {0, x.n / 3, (size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, x.n - 1}; for (size_t i : at) if (i < x.n) f(x.p[i], char(i * 7 + x.n + 1)); };
  for (int i = 0, k = 3 + int(rng.below(5)); i < k; ++i) {
    bool big = total < (size_t(9) << 30) && (i == 1 || rng.chance(1, 3)); size_t n = !big ? 1 + rng.below(5000) : rng.pick<size_t>({size_t(1) << 31, size_t(1) << 32, size_t(3) << 30, (size_t(1) << 31) - 4096, (size_t(1) << 32) - 64}) + rng.below(9000), al = size_t(1) << rng.below(8); T("alloc %zu align %zu", n, al); if (big) total += n;
    MemSpan<void> s; switch (rng.below(4)) { case 0: a.require(n, al); s = a.alloc(n, al); break; case 1: if (al <= 8) { s = a.alloc_span<char>(n); al = 1; break; } [[fallthrough]]; default: s = a.alloc(n, al); }
    CHECK(s.size() == n, "allocation size", "asked for %zu got %zu", n, s.size()); P x{static_cast<char *>(s.data()), n}; CHECK(0 == (uintptr_t(x.p) & (al - 1)), "allocation alignment", "%zu", n);
    for (auto &o : live) CHECK(x.p + n <= o.p || o.p + o.n <= x.p, "overlap", "allocations of %zu and %zu bytes", n, o.n);
    CHECK(a.contains(x.p) && a.contains(x.p + n - 1), "contains", "%zu", n); live.push_back(x); gen += n; spots(x, [](char &c, char v) { c = v; });
    CHECK(a.size() == gen && a.reserved_size() >= gen && a.allocated_size() == gen, "accounting", "size %zu allocated %zu expected %zu, reserved %zu", a.size(), a.allocated_size(), gen, a.reserved_size());
  }
  for (auto &o : live) spots(o, [&](char &c, char v) { CHECK(c == v, "allocation contents changed", "in %zu bytes", o.n); }); obs(u64(total >> 12)); EV("gigabyte allocations");
  if (rng.flip()) { a.freeze(); CHECK(a.allocated_size() == gen && a.size() == 0, "accounting", "allocated %zu expected %zu after freezing", a.allocated_size(), gen); for (auto &o : live) spots(o, [&](char &c, char v) { CHECK(c == v, "allocation contents changed", "frozen, in %zu bytes", o.n); }); if (rng.flip()) { a.thaw(); CHECK(a.allocated_size() == 0 && a.reserved_size() == 0, "accounting", "after thaw"); } }
#else
  EV("gigabyte allocations");
#endif
}
