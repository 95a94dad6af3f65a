// Shared operation driver and monitors for MemArena (A01: shadow memory, A02: accounting).
#pragma once
#include "vh.h"
#include "swoc/MemArena.h"
#include <map>
#include <optional>
#include <set>

namespace ar {
using namespace vh;
using swoc::MemArena;
using swoc::MemSpan;

// ---- independent view of the system allocator: active only inside Watch scopes.
struct Sys {
  bool on = false; bool busy = false;
  std::map<void const *, size_t> *live = nullptr; // blocks obtained by the watched code.
  u64 mallocs = 0, frees = 0; bool foreign_free = false; void const *foreign = nullptr;
};
inline Sys &sys() { static Sys s; return s; }
inline void on_malloc(void const volatile *p, size_t n) {
  auto &s = sys(); if (!s.on || s.busy || !p) return; s.busy = true; (*s.live)[const_cast<void const *>(p)] = n; ++s.mallocs; s.busy = false;
}
inline void on_free(void const volatile *p) {
  auto &s = sys(); if (!s.on || s.busy || !p) return; s.busy = true;
  auto it = s.live->find(const_cast<void const *>(p));
  if (it == s.live->end()) { s.foreign_free = true; s.foreign = const_cast<void const *>(p); } else s.live->erase(it);
  ++s.frees; s.busy = false;
}
inline void hook() {
#if VH_ASAN
  static bool done = false; if (!done) { done = true; __sanitizer_install_malloc_and_free_hooks(&on_malloc, &on_free); }
#endif
}
struct Watch { Watch() { sys().on = true; } ~Watch() { sys().on = false; } };

struct A { char *p; size_t n, align; u8 seed; u64 id; };
inline u8 pat(u8 seed, size_t i) { return u8(seed + i * 7 + (i >> 8) * 13); }

struct Drv {
  Rng &rng; bool const SHADOW, ACCT;
  std::map<void const *, size_t> live;      // malloc blocks held by the arena under test.
  std::vector<char> sbuf_store; char *sbuf = nullptr; size_t sbuf_n = 0; bool sdead = true;
  std::optional<MemArena> box;              // storage for the arena.
  std::vector<A> act, frz;
  std::map<char const *, size_t> where;     // live extents, base -> size (only n > 0).
  size_t m_act = 0, m_frz = 0;              // model of allocated totals.
  size_t pad_act = 0;                       // upper bound on padding in active.
  i64 hint = -1;                            // explicit pending minimum for next block.
  u64 ids = 0; bool is_static = false;
  std::vector<char> guard = std::vector<char>(64, 'g');

  Drv(Rng &r, bool shadow, bool acct) : rng(r), SHADOW(shadow), ACCT(acct) { hook(); sys() = Sys{}; sys().live = &live; }
  ~Drv() { sys().on = false; }
  MemArena &a() { return *box; }

  void fill(A &x) { for (size_t i = 0; i < x.n; ++i) x.p[i] = char(pat(x.seed, i)); }
  void verify(A const &x, char const *when) {
    for (size_t i = 0; i < x.n; ++i)
      if (u8(x.p[i]) != pat(x.seed, i)) fail("allocation contents changed", "%s: allocation #%llu (%zu bytes) differs at offset %zu", when, (unsigned long long)x.id, x.n, i);
  }
  void verify_all(char const *when) {
    if (SHADOW) {
      for (auto &x : act) verify(x, when);
      for (auto &x : frz) verify(x, when);
      EV("canary sweeps");
    }
  }
  void contains_all(char const *when) {
    if (SHADOW) {
      for (auto *v : {&act, &frz})
        for (auto &x : *v) if (x.n) {
          CHECK(box->contains(x.p), "contains", "%s: first byte of a live allocation is not contained", when);
          CHECK(box->contains(x.p + x.n - 1), "contains", "%s: last byte of a live allocation is not contained", when);
        }
      char local = 0; CHECK(!box->contains(&local), "contains", "%s: a stack address is reported as contained", when);
      CHECK(!box->contains(guard.data() + 5), "contains", "%s: a foreign heap address is reported as contained", when);
      auto edges = [&](MemArena::const_iterator it, MemArena::const_iterator lim) {
        for (; it != lim; ++it) {
          char const *e = it->allocated_data_end() + it->remaining();
          bool other = false; for (auto b = box->begin(); b != box->end(); ++b) other |= e >= b->data() && e < b->allocated_data_end() + b->remaining();
          for (auto b = box->frozen_begin(); b != box->frozen_end(); ++b) other |= e >= b->data() && e < b->allocated_data_end() + b->remaining();
          if (!other) CHECK(!box->contains(e), "contains", "%s: the address past the end of a block is reported as contained", when);
          if (e > it->data()) CHECK(box->contains(e - 1), "contains", "%s: the last byte of a block is not contained", when);
        }
      };
      edges(box->begin(), box->end()); edges(box->frozen_begin(), box->frozen_end());
    }
  }
  // Add a live allocation to the shadow.
  void admit(MemSpan<void> s, size_t want, size_t align, bool exact = true, bool prefilled = false, u8 seed = 0) {
    A x{static_cast<char *>(s.data()), want, align, u8(prefilled ? seed : rng.u()), ids++};
    if (SHADOW) {
      if (exact) CHECK(s.size() == want, "allocation size", "asked for %zu got %zu", want, s.size());
      else CHECK(s.size() >= want, "allocation size", "asked for %zu got %zu", want, s.size());
      CHECK(want == 0 || x.p, "allocation size", "null data for %zu bytes", want);
      CHECK(0 == (uintptr_t(x.p) & (align - 1)), "allocation alignment", "%zu bytes at align %zu returned %zu past alignment", want, align, size_t(uintptr_t(x.p) & (align - 1)));
      if (want) {
        auto it = where.upper_bound(x.p);
        if (it != where.end()) CHECK(x.p + want <= it->first, "overlap", "new allocation of %zu bytes overlaps the following live one by %zu", want, size_t(x.p + want - it->first));
        if (it != where.begin()) { --it; CHECK(it->first + it->second <= x.p, "overlap", "new allocation of %zu bytes starts %zu inside a live one of %zu", want, size_t(x.p - it->first), it->second); }
        CHECK(a().contains(x.p) && a().contains(x.p + want - 1), "contains", "fresh allocation is not contained");
      }
    }
    if (want) where[x.p] = want;
    if (!prefilled) fill(x);
    act.push_back(x); m_act += want; pad_act += align - 1;
    EV("allocations");
  }
  void drop(std::vector<A> &v) { for (auto &x : v) if (x.n) where.erase(x.p); v.clear(); }

  void check_hint(u64 m0) { // after an operation that might have reserved a block.
    if (sys().mallocs == m0) return;
    CHECK(sys().mallocs == m0 + 1, "reservation", "%llu blocks reserved by one operation", (unsigned long long)(sys().mallocs - m0));
    if (hint > 0) {
      auto b = a().begin(); bool ok = false;
      for (; b != a().end(); ++b) { size_t sz = b->remaining() + (b->allocated_data_end() - b->data()); if (sz >= size_t(hint)) ok = true; }
      if (ACCT) CHECK(ok, "reservation hint", "no active block of at least the hinted %lld bytes", (long long)hint);
    }
    hint = -1; EV("block reservations");
  }

  void account(char const *when) {
    CHECK(!sys().foreign_free, "foreign free", "%s: arena released memory it did not obtain%s", when, (sbuf && sys().foreign >= sbuf && sys().foreign < sbuf + sbuf_n) ? " (the static block)" : "");
    if (ACCT) {
      auto &A_ = a();
      CHECK(A_.size() == m_act, "active size", "%s: size() %zu expected %zu", when, A_.size(), m_act);
      CHECK(A_.allocated_size() == m_act + m_frz, "allocated size", "%s: allocated_size() %zu expected %zu+%zu", when, A_.allocated_size(), m_act, m_frz);
      size_t blocks = 0, nb = 0, used = 0, heap_blocks = 0, heap_bytes = 0; 
      auto walk = [&](MemArena::const_iterator it, MemArena::const_iterator lim, bool active) {
        for (; it != lim; ++it) {
          size_t u = it->allocated_data_end() - it->data(), sz = u + it->remaining();
          CHECK(u <= sz && sz < (1u << 30), "block bookkeeping", "%s: block used %zu remaining %zu", when, u, it->remaining());
          blocks += sz; ++nb; if (active) used += u;
          bool st = sbuf && it->data() >= sbuf && it->data() < sbuf + sbuf_n;
          if (st) CHECK(it->data() + sz <= sbuf + sbuf_n, "block bookkeeping", "%s: static block extends past the supplied memory", when);
          else {
            ++heap_blocks; heap_bytes += sz;
            auto m = live.upper_bound(it->data()); CHECK(m != live.begin(), "block bookkeeping", "%s: block not in memory obtained from the system", when); --m;
            CHECK(static_cast<char const *>(m->first) <= it->data() && it->data() + sz <= static_cast<char const *>(m->first) + m->second, "block bookkeeping", "%s: block [%zu bytes] exceeds the system allocation of %zu", when, sz, m->second);
          }
        }
      };
      walk(A_.begin(), A_.end(), true);
      walk(A_.frozen_begin(), A_.frozen_end(), false);
      CHECK(A_.reserved_size() == blocks, "reserved size", "%s: reserved_size() %zu but the blocks total %zu", when, A_.reserved_size(), blocks);
#if VH_ASAN
      CHECK(heap_blocks == live.size(), "retained memory", "%s: %zu system allocations outstanding for %zu blocks", when, live.size(), heap_blocks);
      size_t tot = 0; for (auto &m : live) tot += m.second;
      CHECK(heap_bytes <= tot && tot <= heap_bytes + heap_blocks * 64, "reserved size", "%s: %zu bytes obtained but blocks report %zu", when, tot, heap_bytes);
#endif
      CHECK(used >= m_act && used <= m_act + pad_act, "block usage", "%s: active blocks hold %zu bytes for %zu allocated (padding at most %zu)", when, used, m_act, pad_act);
      CHECK(A_.remaining() == A_.remnant().size(), "remaining", "%s: remaining() %zu remnant %zu", when, A_.remaining(), A_.remnant().size());
      if (A_.begin() == A_.end()) CHECK(A_.remaining() == 0, "remaining", "%s: %zu remaining without a block", when, A_.remaining());
      EV("accounting reconciliations");
    }
  }

  bool big = false; // sizes up to several megabytes.
  size_t pick_big() {
    size_t r = box ? a().remaining() : 0;
    switch (rng.below(8)) {
    case 0: return rng.below(200);
    case 1: return r > (24u << 20) ? 1 : r;
    case 2: return r > (24u << 20) ? 1 : r + 1 + rng.below(3);
    case 3: return (size_t(1) << (12 + rng.below(11))) - rng.below(3);
    case 4: return (size_t(1) << (12 + rng.below(11))) + rng.below(100);
    case 5: return rng.below(70000);
    case 6: return rng.below(1 << 20);
    default: return rng.below(rng.chance(1, 4) ? 9u << 20 : 4u << 20);
    }
  }
  size_t pick_n() {
    if (big) return pick_big();
    switch (rng.below(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: { size_t r = box ? a().remaining() : 0; return r > 20000 ? rng.below(200) : r; }
    case 3: { size_t r = box ? a().remaining() : 0; return r > 20000 ? 17 : r + rng.below(4); }
    case 4: { size_t r = box ? a().remaining() : 0; return r > 20 && r < 20000 ? r - rng.below(20) : 3; }
    case 5: return 900 + rng.below(300);
    case 6: return 3900 + rng.below(300);
    case 7: return rng.chance(1, 4) ? 4000 + rng.below(9000) : rng.below(64);
    default: return rng.below(80);
    }
  }
  size_t pick_align() { if (big && rng.chance(1, 4)) return size_t(1) << rng.below(18); if (rng.chance(1, 2)) return 1; if (rng.chance(1, 6)) return size_t(1) << rng.below(13); return size_t(1) << rng.below(6); }

  void create(bool force_heap = false) {
    hint = -1; is_static = false; sbuf = nullptr; sbuf_n = 0;
    Watch w;
    if (!force_heap && rng.chance(1, 3)) {
      sys().on = false;
      size_t off = rng.below(17), n = 64 + 7 + (big ? rng.below(3u << 20) : rng.chance(1, 3) ? rng.below(16) : rng.below(3000));
      sbuf_store.assign(n + off + 32, '#'); sbuf = sbuf_store.data() + off; sbuf_n = n; is_static = true;
      memset(sbuf_store.data(), '#', off); 
      sys().on = true;
      T("arena{static %zu bytes at misalignment %zu}", n, size_t(uintptr_t(sbuf) & 15));
      box.emplace(MemSpan<void>{sbuf, n});
      CHECK(a().reserved_size() <= n && a().reserved_size() + 64 >= n, "static block size", "static block of %zu reports %zu reserved", n, a().reserved_size());
      EV("static block arenas");
    } else if (rng.chance(1, 4)) { T("arena{}"); box.emplace(); }
    else { size_t h = rng.pick<size_t>({0, 1, 16, 100, 1000, 4000, 4096, 9000, rng.below(600)}); if (big) h = rng.below(5u << 20); T("arena{%zu}", h); box.emplace(h); hint = i64(h); }
    m_act = m_frz = pad_act = 0;
  }
  void static_guard() {
    if (!sbuf) return;
    for (char *p = sbuf_store.data(); p < sbuf; ++p) CHECK(*p == '#', "static block bounds", "byte before the static block modified");
    for (char *p = sbuf + sbuf_n; p < sbuf_store.data() + sbuf_store.size(); ++p) CHECK(*p == '#', "static block bounds", "byte after the static block modified");
  }
  void destroy() {
    verify_all("before destruction");
    { Watch w; box.reset(); }
    T("destroyed");
    CHECK(!sys().foreign_free, "foreign free", "destructor released memory the arena did not obtain");
    if (ACCT)
#if VH_ASAN
      CHECK(live.empty(), "memory returned", "%zu system allocations not returned by the destructor", live.size());
#endif
    static_guard();
    drop(act); drop(frz); m_act = m_frz = 0;
  }

  void op_alloc() {
    size_t n = pick_n(), al = pick_align(); u64 m0 = sys().mallocs; MemSpan<void> s;
    T("alloc(%zu, %zu)", n, al);
    { Watch w; s = (al == 1 && rng.flip()) ? a().alloc(n) : a().alloc(n, al); }
    obs(u64(sys().mallocs - m0)); obs(u64(n)); 
    admit(s, n, al); check_hint(m0);
  }
  struct alignas(32) Big { char b[96]; };
  void op_typed() {
    size_t n = rng.below(30); u64 m0 = sys().mallocs;
    Watch w;
    switch (rng.below(6)) {
    case 0: { auto s = a().alloc_span<u16>(n); sys().on = false; T("alloc_span<u16>(%zu)", n); CHECK(s.size() == n, "typed span", "count %zu for %zu", s.size(), n); admit(s.rebind<void>(), n * 2, 2); break; }
    case 1: { auto s = a().alloc_span<u64>(n); sys().on = false; T("alloc_span<u64>(%zu)", n); CHECK(s.size() == n, "typed span", "count %zu for %zu", s.size(), n); admit(s.rebind<void>(), n * 8, 8); break; }
    case 2: { auto s = a().alloc_span<Big>(n); sys().on = false; T("alloc_span<Big>(%zu)", n); CHECK(s.size() == n, "typed span", "count %zu for %zu", s.size(), n); admit(s.rebind<void>(), n * sizeof(Big), 32); break; }
    case 3: { auto p = a().make<u64>(u64(7)); sys().on = false; T("make<u64>"); CHECK(*p == 7, "make value", "value not constructed"); admit({p, sizeof *p}, sizeof *p, 8); break; }
    case 4: { auto p = a().make<Big>(); sys().on = false; T("make<Big>"); admit({p, sizeof *p}, sizeof *p, 32); break; }
    default: { size_t al = size_t(1) << rng.below(8); void *p = static_cast<std::pmr::memory_resource &>(a()).allocate(n, al); sys().on = false; T("pmr allocate(%zu,%zu)", n, al); admit({p, n}, n, al);
      if (rng.chance(1, 3)) { static_cast<std::pmr::memory_resource &>(a()).deallocate(p, n, al); T("pmr deallocate"); } break; }
    }
    check_hint(m0);
  }
  void op_localize() {
    std::string text; size_t n = rng.chance(1, 8) ? pick_n() : rng.below(40); u8 seed = u8(rng.u());
    for (size_t i = 0; i < n; ++i) text += char(pat(seed, i));
    HText h(text); u64 m0 = sys().mallocs; bool c = rng.flip(); MemSpan<char> s;
    T("localize%s(%zu)", c ? "_c" : "", n);
    { Watch w; s = c ? a().localize_c(MemSpan<char const>(h.data(), n)) : a().localize(MemSpan<char const>(h.data(), n)); }
    CHECK(s.size() == n && (n == 0 || 0 == memcmp(s.data(), text.data(), n)), "localized text", "view of %zu for %zu", s.size(), n);
    if (c) {
      CHECK(s.data()[n] == 0, "localized text", "no terminator");
      admit({s.data(), n}, n, 1, true, true, seed); // text
      // The terminator is part of the allocation.
      if (n) where[s.data()] = n + 1; m_act += 1; pad_act += 0;
    } else admit({s.data(), n}, n, 1, true, true, seed);
    check_hint(m0);
  }
  void op_require() {
    size_t n = pick_n(), al = pick_align(); u64 m0 = sys().mallocs; size_t rs0 = a().reserved_size();
    T("require(%zu,%zu)", n, al);
    auto r0 = a().remnant(); size_t pad0 = (al - (uintptr_t(r0.data()) & (al - 1))) & (al - 1);
    bool had = r0.data() && r0.size() >= n + pad0;
    { Watch w; if (rng.flip() || al > 1) a().require(n, al); else a().require(n); }
    if (had && ACCT) CHECK(sys().mallocs == m0 && a().reserved_size() == rs0, "require", "reserved although the remnant of %zu already satisfied %zu", r0.size(), n);
    check_hint(m0);
    auto r = a().remnant(); size_t pad = (al - (uintptr_t(r.data()) & (al - 1))) & (al - 1);
    CHECK(r.size() >= n + pad, "require", "remnant %zu after requiring %zu at %zu", r.size(), n, al);
    account("require");
    if (rng.flip()) return;
    // Next allocation no larger than the remnant must come from it without a reservation.
    size_t n2 = n, al2 = al;
    if (rng.chance(1, 3)) { al2 = 1; n2 = rng.chance(1, 3) ? r.size() : rng.below(r.size() + 1); if (n2 > 40000) n2 = 100; }
    m0 = sys().mallocs; MemSpan<void> s; T("alloc(%zu,%zu) from remnant", n2, al2);
    { Watch w; s = a().alloc(n2, al2); }
    CHECK(sys().mallocs == m0, "require", "allocation of %zu reserved memory although %zu were required", n2, n);
    CHECK(s.data() >= r.data() && static_cast<char *>(s.data()) + n2 <= static_cast<char *>(r.data()) + r.size(), "require", "allocation did not come from the remnant");
    admit(s, n2, al2); EV("require then alloc");
  }
  void op_remnant() {
    size_t n = rng.below(200), al = pick_align(); if (rng.chance(1, 5)) n = pick_n(); u64 m0 = sys().mallocs; MemSpan<void> s; int k = int(rng.below(4));
    T("remnant kind %d (%zu,%zu)", k, n, al);
    { Watch w;
      switch (k) {
      case 0: s = a().remnant(n, al); break;
      case 1: { auto t = a().remnant_span<u32>(n); CHECK(t.size() == n, "remnant", "span<u32> count %zu for %zu", t.size(), n); s = t.rebind<void>(); n *= 4; al = 4; break; }
      case 2: { auto t = a().remnant_span<u64>(n); CHECK(t.size() == n, "remnant", "span<u64> count %zu for %zu", t.size(), n); s = t.rebind<void>(); n *= 8; al = 8; break; }
      default: s = a().remnant_span<void>(n); al = 1; break;
      } }
    check_hint(m0);
    CHECK(s.size() == n, "remnant", "size %zu requested %zu", s.size(), n);
    CHECK(0 == (uintptr_t(s.data()) & (al - 1)), "remnant", "misaligned for %zu", al);
    if (n) {
      if (SHADOW) {
        CHECK(a().contains(s.data()), "remnant", "not contained");
        char *p = static_cast<char *>(s.data()); auto it = where.upper_bound(p);
        if (it != where.end()) CHECK(p + n <= it->first, "overlap", "remnant overlaps a live allocation");
        if (it != where.begin()) { --it; CHECK(it->first + it->second <= p, "overlap", "remnant starts inside a live allocation"); }
      }
      memset(s.data(), 0x5a, n); // scratch use must never affect live allocations
    }
    if (rng.flip()) { MemSpan<void> t; m0 = sys().mallocs; { Watch w; t = a().alloc(n, al); }
      CHECK(t.data() == s.data() && sys().mallocs == m0, "remnant", "the following alloc(%zu,%zu) returned other bytes than the remnant", n, al); 
      for (size_t i = 0; i < n; ++i) CHECK(static_cast<u8 *>(t.data())[i] == 0x5a, "remnant", "speculative contents lost");
      admit(t, n, al); EV("remnant then alloc"); }
  }
  void op_freeze() {
    size_t h = rng.chance(1, 2) ? 0 : rng.below(big ? 6u << 20 : 6000); T("freeze(%zu)", h);
    verify_all("before freeze");
    { Watch w; if (h || rng.flip()) a().freeze(h); else a().freeze(); }
    drop(frz); frz = std::move(act); act.clear(); m_frz = m_act; m_act = 0; pad_act = 0; hint = h ? i64(h) : i64(m_frz);
    if (h == 0 && m_frz == 0) hint = -1;
    EV("freeze"); account("freeze");
    if (ACCT) { CHECK(a().begin() == a().end() && a().remaining() == 0, "freeze", "active memory remains after freeze"); }
  }
  void op_thaw() {
    T("thaw"); size_t rs = a().reserved_size(); (void)rs;
    { Watch w; a().thaw(); }
    drop(frz); m_frz = 0; if (hint >= 0) hint = -1; // default hint may be gone
    if (ACCT) { CHECK(a().frozen_begin() == a().frozen_end(), "thaw", "frozen blocks remain after thaw"); }
    EV("thaw"); account("thaw");
  }
  void op_clear() {
    size_t h = rng.flip() ? 0 : rng.below(big ? 6u << 20 : 5000); T("clear(%zu)", h); size_t tot = m_act + m_frz;
    { Watch w; a().clear(h); }
    drop(act); drop(frz); m_act = m_frz = pad_act = 0; hint = h ? i64(h) : i64(tot);
    if (hint == 0) hint = -1;
    if (ACCT) {
      CHECK(a().reserved_size() == 0, "clear", "reserved_size() %zu after clear", a().reserved_size());
#if VH_ASAN
      CHECK(live.empty(), "clear", "%zu system allocations not returned by clear", live.size());
#endif
    }
    EV("clear"); account("clear");
  }
  void op_discard_all() {
    size_t h = rng.flip() ? 0 : rng.below(big ? 6u << 20 : 5000); T("discard(%zu)", h); size_t rs = a().reserved_size(); u64 m0 = sys().mallocs, f0 = sys().frees;
    { Watch w; a().discard(h); }
    drop(act); m_act = 0; pad_act = 0; hint = h ? i64(h) : -1;
    if (ACCT) CHECK(a().reserved_size() == rs && sys().mallocs == m0 && sys().frees == f0, "discard all", "reserved %zu -> %zu", rs, a().reserved_size());
    EV("discard all"); account("discard all");
  }
  void op_discard() {
    size_t before = a().size(); MemSpan<void const> s; int kind = int(rng.below(4)); size_t idx = 0;
    if (kind == 0 || act.empty()) { // immediate alloc + discard always succeeds
      size_t n = 1 + rng.below(big ? 2u << 20 : rng.chance(1, 4) ? 5000 : 60), al = pick_align(); MemSpan<void> t; u64 m0 = sys().mallocs; T("alloc(%zu,%zu); discard it", n, al);
      { Watch w; t = a().alloc(n, al); } admit(t, n, al); check_hint(m0);
      { Watch w; a().discard(MemSpan<void const>{t.data(), n}); }
      auto &x = act.back();
      if (ACCT) CHECK(a().size() == before, "discard span", "discarding the most recent allocation of %zu left size %zu, expected %zu", n, a().size(), before);
      if (a().size() == before) { where.erase(x.p); act.pop_back(); m_act -= n; }
      EV("immediate discards"); return;
    }
    if (kind == 1) idx = act.size() - 1; else idx = rng.below(act.size());
    auto x = act[idx];
    if (kind == 3) { T("discard(foreign)"); { Watch w; a().discard(MemSpan<void const>{guard.data(), 16}); } 
      if (ACCT) CHECK(a().size() == before, "discard span", "discarding foreign memory changed the size"); return; }
    size_t ext = x.n ? where[x.p] : 0; if (x.n == 0) return; // localize_c extends by one
    T("discard(#%llu %zu bytes)", (unsigned long long)x.id, ext);
    { Watch w; a().discard(MemSpan<void const>{x.p, ext}); }
    size_t after = a().size();
    CHECK(after == before || after == before - ext, "discard span", "size %zu -> %zu for a span of %zu", before, after, ext);
    if (after != before) {
      where.erase(x.p); act.erase(act.begin() + idx); m_act -= ext; EV("span discards");
    } else EV("span discards refused");
  }
  void op_move() {
    verify_all("before move"); int k = int(rng.below(3)); T("move kind %d", k);
    if (k == 0) {
      std::optional<MemArena> o; { Watch w; o.emplace(std::move(*box)); }
      moved_from(*box); { Watch w; box.reset(); box.emplace(std::move(*o)); } 
      moved_from(*o);
      switch (rng.below(4)) { case 0: o->thaw(); moved_from(*o); break; case 1: o->freeze(); o->thaw(); moved_from(*o); break; case 2: o->clear(); moved_from(*o); break; default: break; }
      if (rng.flip()) { std::map<void const *, size_t> l2; auto keep = live; sys().live = &l2; { Watch w; auto t = o->alloc(40); memset(t.data(), 1, 40); o.reset(); } sys().live = &live; CHECK(keep == live, "moved from arena", "use of the moved from arena affected the moved to arena"); 
#if VH_ASAN
        if (ACCT) CHECK(l2.empty(), "memory returned", "moved from arena leaked after reuse");
#endif
      }
      { Watch w; o.reset(); }
    } else {
      // Assign over an arena which has its own content (released by the assignment).
      MemArena *o; std::map<void const *, size_t> l2; sys().live = &l2; char st[512]; bool useS = rng.chance(1, 3);
      std::optional<MemArena> ob; { Watch w; if (useS) ob.emplace(MemSpan<void>{st, sizeof st}); else ob.emplace(size_t(rng.below(3000))); o = &*ob; for (u64 i = rng.below(4); i; --i) { auto t = o->alloc(rng.below(1500)); memset(t.data(), 9, t.size()); } if (rng.flip()) o->freeze(); if (rng.flip()) o->alloc(30); }
      for (auto &m : l2) live.insert(m); sys().live = &live; size_t own = live.size() - l2.size();
      { Watch w; *o = std::move(*box); }
      CHECK(!sys().foreign_free, "foreign free", "move assignment released memory not obtained from the system");
#if VH_ASAN
      if (ACCT) CHECK(live.size() == own, "memory returned", "move assignment kept %zu allocations, expected %zu", live.size(), own);
#endif
      (void)own;
      moved_from(*box);
      if (rng.flip()) { Watch w; *box = std::move(*o); }
      else { { Watch w; if (rng.flip()) box->thaw(); if (is_static && sbuf) box->alloc(8); box.reset(); box.emplace(std::move(*o)); } account("move"); }
      moved_from(*o); { Watch w; ob.reset(); }
    }
    verify_all("after move"); contains_all("after move"); account("move"); EV("moves");
    if (hint > 0) hint = -1;
  }
  void moved_from(MemArena &m) {
    CHECK(m.size() == 0 && m.allocated_size() == 0 && m.reserved_size() == 0 && m.remaining() == 0 && m.begin() == m.end() && m.frozen_begin() == m.frozen_end(), "moved from arena", "moved from arena reports size %zu reserved %zu", m.allocated_size(), m.reserved_size());
    for (auto &x : act) if (x.n) CHECK(!m.contains(x.p), "moved from arena", "still contains an allocation");
  }
  void step() {
    switch (rng.below(30)) {
    case 0: case 1: op_require(); break;
    case 2: case 3: op_remnant(); break;
    case 4: op_freeze(); break;
    case 5: op_thaw(); break;
    case 6: if (rng.chance(1, 3)) op_clear(); else op_alloc(); break;
    case 7: if (rng.chance(1, 2)) op_discard_all(); else op_alloc(); break;
    case 8: case 9: case 10: op_discard(); break;
    case 11: op_move(); break;
    case 12: case 13: op_localize(); break;
    case 14: case 15: case 16: op_typed(); break;
    case 17: if (rng.chance(1, 6)) { destroy(); create(); } else op_alloc(); break;
    default: op_alloc(); break;
    }
    account("step");
    obs(u64(act.size())); obs(u64(a().reserved_size())); obs(u64(a().remaining()));
  }
  void run(size_t steps) {
    create();
    for (size_t i = 0; i < steps; ++i) { step(); if (i % 7 == 6) { verify_all("during history"); contains_all("during history"); } }
    static_guard(); contains_all("end"); destroy();
  }
};
} // namespace ar
