// A03: arena helpers construct, recycle and release objects correctly; arena backed output preserves content.
#include "arena.h"
#include "swoc/ArenaWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_std.h"
#include <list>
#include <memory_resource>
#include <set>
#include <unordered_map>
using namespace vh; using namespace ar;
using swoc::ArenaWriter; using swoc::FixedArena; using swoc::TextView;

// ---- fixed arena
template <size_t ALIGN, size_t PAD> struct alignas(ALIGN) Slot {
  static inline long alive = 0, made = 0, dead = 0;
  u64 tag; Slot *self; u64 twin; char pad[PAD];
  explicit Slot(u64 t) : tag(t), self(this), twin(t) { ++alive; ++made; memset(pad, int(t & 0xff), PAD); }
  Slot(u64 a, std::string const &s) : Slot(a + s.size()) {}
  ~Slot() { --alive; ++dead; CHECK(self == this, "destroy", "object destroyed twice or moved"); CHECK(intact(twin), "destroy", "object content changed before its destructor ran"); self = nullptr; }
  bool intact(u64 t) const { if (tag != t || self != this) return false; for (size_t i = 0; i < PAD; ++i) if (pad[i] != char(t & 0xff)) return false; return true; }
};
struct Tiny { u64 v; explicit Tiny(u64 x) : v(x) {} };

template <class S> void fixed(Rng &rng) {
  S::alive = 0; S::made = S::dead = 0;
  std::optional<MemArena> arena; alignas(16) static char st[1024];
  if (rng.chance(1, 4)) arena.emplace(MemSpan<void>{st + rng.below(9), 900}); else arena.emplace(size_t(rng.below(2000)));
  FixedArena<S> fa{*arena}; CHECK(&fa.arena() == &*arena, "fixed arena", "arena() is not the supplied arena");
  std::map<S *, u64> live; std::set<S *> free_; std::vector<A> others; u64 tag = rng.u();
  for (u64 n = 5 + rng.below(90); n; --n) {
    switch (rng.below(8)) {
    default: {
      size_t sz = arena->size(); ++tag; S *p; long made = S::made;
      if (rng.flip()) { p = fa.make(tag); } else { std::string s(rng.below(30), 'x'); p = fa.make(tag - s.size(), s); }
      T("make -> %p", (void *)p);
      CHECK(0 == (uintptr_t(p) & (alignof(S) - 1)), "fixed arena alignment", "slot %zu past alignment %zu", size_t(uintptr_t(p) & (alignof(S) - 1)), alignof(S));
      CHECK(S::made == made + 1, "fixed arena construct", "%ld constructions", S::made - made);
      CHECK(arena->contains(p) && arena->contains(reinterpret_cast<char *>(p) + sizeof(S) - 1), "fixed arena", "object not in the arena");
      auto it = live.upper_bound(p); if (it != live.end()) CHECK(p + 1 <= it->first, "fixed arena overlap", "slot overlaps a live object");
      if (it != live.begin()) { --it; CHECK(it->first != p, "fixed arena reuse", "live slot handed out again"); CHECK(it->first + 1 <= p, "fixed arena overlap", "slot overlaps a live object"); }
      for (auto &o : others) CHECK(o.p + o.n <= reinterpret_cast<char *>(p) || o.p >= reinterpret_cast<char *>(p + 1), "fixed arena overlap", "slot overlaps another arena allocation");
      if (!free_.empty()) { CHECK(free_.count(p), "fixed arena reuse", "a destroyed slot was available but a new one was made"); CHECK(arena->size() == sz, "fixed arena reuse", "arena grew by %zu on reuse", arena->size() - sz); EV("slots reused"); free_.erase(p); }
      CHECK(p->intact(tag), "fixed arena construct", "constructor arguments not applied");
      live[p] = tag; break;
    }
    case 0: case 1: case 2:
      if (!live.empty()) { auto it = live.begin(); std::advance(it, rng.below(live.size())); S *p = it->first; CHECK(p->intact(it->second), "fixed arena contents", "object changed while live"); long d = S::dead; T("destroy %p", (void *)p); fa.destroy(p); CHECK(S::dead == d + 1, "fixed arena destroy", "%ld destructor calls", S::dead - d); live.erase(it); free_.insert(p); }
      else { long d = S::dead; fa.destroy(nullptr); CHECK(S::dead == d, "fixed arena destroy", "null"); }
      break;
    case 3: { A x{nullptr, rng.below(60), 1, u8(rng.u()), 0}; x.p = static_cast<char *>(arena->alloc(x.n).data()); for (size_t i = 0; i < x.n; ++i) x.p[i] = char(pat(x.seed, i)); others.push_back(x); break; }
    case 4: if (rng.chance(1, 6)) { T("clear free list"); fa.clear(); free_.clear(); EV("free list cleared"); } break;
    case 5: if (rng.chance(1, 8)) { // documented sequence: drop everything, then clear the list.
        T("arena clear"); for (auto &k : live) { CHECK(k.first->intact(k.second), "fixed arena contents", "object changed while live"); std::destroy_at(k.first); } live.clear(); free_.clear(); others.clear(); arena->clear(); fa.clear(); } break;
    }
    CHECK(S::alive == long(live.size()), "fixed arena lifetime", "%ld objects alive, %zu expected", S::alive, live.size());
    obs(u64(live.size())); obs(u64(free_.size()));
  }
  for (auto &k : live) { CHECK(k.first->intact(k.second), "fixed arena contents", "object changed while live"); fa.destroy(k.first); }
  for (auto &o : others) for (size_t i = 0; i < o.n; ++i) CHECK(u8(o.p[i]) == pat(o.seed, i), "fixed arena overlap", "other arena memory was modified");
  CHECK(S::made == S::dead, "fixed arena lifetime", "%ld made %ld destroyed", S::made, S::dead);
}
SUB(fixed_arena, 24000, 240000, LEAK) {
  switch (rng.below(5)) { case 0: fixed<Slot<8, 1>>(rng); break; case 1: fixed<Slot<16, 9>>(rng); break; case 2: fixed<Slot<32, 100>>(rng); break; case 3: fixed<Slot<64, 3>>(rng); break; default: fixed<Slot<8, 400>>(rng); break; }
}
// Packed byte type: only the size requirement is placed on T.
struct Packed { char c[11]; explicit Packed(char x) { memset(c, x, sizeof c); } };
SUB(fixed_packed, 6000, 60000, LEAK) {
  MemArena arena{size_t(rng.below(300))}; FixedArena<Packed> fa{arena}; std::vector<std::pair<Packed *, char>> v;
  for (u64 n = rng.below(60); n; --n) {
    if (rng.chance(1, 4)) arena.alloc(rng.below(10));
    if (rng.chance(2, 3) || v.empty()) { char c = char(rng.u()); v.push_back({fa.make(c), c}); } else { size_t i = rng.below(v.size()); fa.destroy(v[i].first); v.erase(v.begin() + i); }
    for (auto &k : v) for (char c : k.first->c) CHECK(c == k.second, "fixed arena contents", "packed object changed");
    obs(u64(v.size()));
  }
}

// ---- make<T>
struct MoveOnly { std::unique_ptr<int> p; std::string s; int &r; MoveOnly(std::unique_ptr<int> &&q, std::string t, int &x) : p(std::move(q)), s(std::move(t)), r(x) { ++x; } };
struct alignas(64) Wide { char c; double d; Wide(char a, double b) : c(a), d(b) {} };
SUB(make_objects, 16000, 160000, LEAK) {
  MemArena arena{size_t(rng.below(500))}; int n = 0; std::vector<MoveOnly *> v; std::vector<Wide *> w; std::vector<std::string> want; std::vector<double> wd; std::vector<std::unique_ptr<Owned>> hold; std::vector<Owned *> ow;
  for (u64 i = rng.below(40); i; --i) {
    if (rng.flip()) arena.alloc(rng.below(7));
    switch (rng.below(3)) {
    case 0: { std::string s(rng.below(50), char('a' + rng.below(26))); want.push_back(s); auto q = std::make_unique<int>(int(i)); auto raw = q.get(); v.push_back(arena.make<MoveOnly>(std::move(q), s, n)); CHECK(!q && v.back()->p.get() == raw && v.back()->s == s && &v.back()->r == &n, "make", "arguments not forwarded"); CHECK(n == int(v.size()), "make", "constructor ran %d times", n); CHECK(0 == uintptr_t(v.back()) % alignof(MoveOnly), "make alignment", "MoveOnly"); break; }
    case 1: { double d = double(rng.u()); wd.push_back(d); w.push_back(arena.make<Wide>('w', d)); CHECK(0 == uintptr_t(w.back()) % 64, "make alignment", "Wide is %zu past 64", size_t(uintptr_t(w.back()) % 64)); break; }
    default: ow.push_back(arena.make<Owned>(int(rng.below(100)))); break;
    }
    CHECK(v.size() == want.size(), "make", "");
    for (size_t k = 0; k < v.size(); ++k) CHECK(v[k]->s == want[k], "make contents", "object changed");
    for (size_t k = 0; k < w.size(); ++k) CHECK(w[k]->c == 'w' && w[k]->d == wd[k], "make contents", "object changed");
  }
  for (auto p : v) std::destroy_at(p); for (auto p : ow) std::destroy_at(p); obs(u64(v.size() * 64 + w.size())); EV("make histories");
}

// ---- polymorphic memory resource
SUB(pmr, 12000, 120000, LEAK) {
  alignas(16) char st[700]; std::optional<MemArena> arena; if (rng.chance(1, 3)) arena.emplace(MemSpan<void>{st, sizeof st}); else arena.emplace(size_t(rng.below(1000)));
  MemArena other;
  std::pmr::memory_resource *mr = &*arena; CHECK(mr->is_equal(*mr) && !mr->is_equal(other), "pmr equality", "identity");
  {
    std::pmr::vector<u32> v{mr}; std::vector<u32> mv; std::pmr::string s{mr}; std::string ms; std::pmr::map<u32, std::pmr::string> m{mr}; std::map<u32, std::string> mm; std::pmr::unordered_map<u64, long double> u{mr}; std::unordered_map<u64, long double> mu; std::pmr::list<char> l{mr}; std::list<char> ml;
    for (u64 n = rng.below(120); n; --n) {
      switch (rng.below(9)) {
      case 0: case 1: { u32 x = u32(rng.u()); v.push_back(x); mv.push_back(x); break; }
      case 2: { std::string t(rng.below(40), char('a' + rng.below(26))); s += t; ms += t; break; }
      case 3: { u32 k = u32(rng.below(20)); std::string t(rng.below(60), char('A' + rng.below(26))); m[k] = std::pmr::string(t.c_str(), mr); mm[k] = t; break; }
      case 4: { u32 k = u32(rng.below(20)); m.erase(k); mm.erase(k); break; }
      case 5: { u64 k = rng.below(50); u[k] = n; mu[k] = n; CHECK(0 == uintptr_t(&u[k]) % alignof(long double), "pmr alignment", "long double"); break; }
      case 6: l.push_back(char(n)); ml.push_back(char(n)); break;
      case 7: if (!v.empty()) { size_t i = rng.below(v.size()); v.erase(v.begin() + i); mv.erase(mv.begin() + i); } break;
      default: { auto x = arena->alloc(rng.below(20)); memset(x.data(), 0xee, x.size()); break; }
      }
    }
    CHECK(std::equal(v.begin(), v.end(), mv.begin(), mv.end()), "pmr contents", "vector"); CHECK(std::string_view(s) == ms, "pmr contents", "string");
    CHECK(m.size() == mm.size() && std::equal(m.begin(), m.end(), mm.begin(), [](auto &a, auto &b) { return a.first == b.first && std::string_view(a.second) == b.second; }), "pmr contents", "map");
    for (auto &k : mu) CHECK(u.count(k.first) && u[k.first] == k.second, "pmr contents", "unordered_map"); CHECK(u.size() == mu.size(), "pmr contents", "unordered_map size");
    CHECK(std::equal(l.begin(), l.end(), ml.begin(), ml.end()), "pmr contents", "list"); obs(u64(arena->size())); obs(u64(mv.size()));
  }
}

// ---- arena writer
static std::string gen_fmt(Rng &rng, ArenaWriter &w, bool do_it) {
  std::string r; char b[400]; u64 k = rng.below(6), v = rng.num(); int i = int(rng.u()), wd = int(rng.below(60)); std::string s(rng.below(rng.chance(1, 10) ? 5000 : 50), char('a' + rng.below(26))); std::string_view sv{s};
  switch (k) {
  case 0: if (do_it) w.print("{}", sv); r = s; break;
  case 1: if (do_it) w.print("<{}:{}>", v, i); snprintf(b, sizeof b, "<%llu:%d>", (unsigned long long)v, i); r = b; break;
  case 2: if (do_it) w.print("[{:>40}]", i); snprintf(b, sizeof b, "[%40d]", i); r = b; break;
  case 3: if (do_it) w.print("{1}-{0}", i, sv); r = s + "-" + std::to_string(i); break;
  case 4: if (do_it) w.print("{:x} {{}} {}", v, 'q'); snprintf(b, sizeof b, "%llx {} q", (unsigned long long)v); r = b; break;
  default: { if (do_it) w.print("{:.<60}{:x}", sv.substr(0, std::min<size_t>(50, s.size())), u32(i)); std::string t = s.substr(0, 50); t.resize(60, '.'); snprintf(b, sizeof b, "%x", u32(i)); r = t + b; break; }
  }
  (void)wd; return r;
}
SUB(writer, 30000, 300000, LEAK) {
  std::unique_ptr<char[]> st; std::optional<MemArena> arena;
  if (rng.chance(1, 4)) { size_t n = 80 + rng.below(600); st.reset(new char[n]); arena.emplace(MemSpan<void>{st.get(), n}); } else arena.emplace(size_t(rng.below(400)));
  std::vector<A> pre; auto put = [&] { A x{nullptr, rng.below(200), 1, u8(rng.u()), 0}; x.p = static_cast<char *>(arena->alloc(x.n).data()); for (size_t i = 0; i < x.n; ++i) x.p[i] = char(pat(x.seed, i)); pre.push_back(x); };
  for (u64 i = rng.below(6); i; --i) put();
  std::vector<std::pair<std::string_view, std::string>> done;
  for (u64 round = 1 + rng.below(3); round; --round) {
    ArenaWriter w{*arena}; std::string m; size_t asz = arena->size(); size_t held = 0;
    for (u64 n = rng.below(30); n; --n) {
      switch (rng.below(10)) {
      case 0: case 1: { char c = char(rng.u()); T("write(char)"); w.write(c); m += c; break; }
      case 2: case 3: { std::string s; size_t k = rng.chance(1, 4) ? w.remaining() + rng.below(3) : rng.below(rng.chance(1, 8) ? 6000 : 90); if (k > 9000) k = 10; for (size_t i = 0; i < k; ++i) s += char('a' + (i + n) % 26); HText h(s); T("write(%zu) remaining %zu", k, w.remaining()); w.write(h.data(), k); m += s; break; }
      case 4: { std::string s(rng.below(40), 'v'); T("write(span %zu)", s.size()); w.write(swoc::MemSpan<void const>{s.data(), s.size()}); m += s; break; }
      case 5: { // speculative output into the unused area.
        size_t k = rng.chance(1, 3) ? w.remaining() + 1 + rng.below(30) : rng.below(w.remaining() + 1); if (k > 9000) k = 5; bool fits = k <= w.remaining(); T("commit(%zu) remaining %zu", k, w.remaining());
        if (fits) memset(w.aux_data(), 'C', k);
        bool ok = w.commit(k); CHECK(ok == fits, "writer commit", "commit(%zu) returned %d with %s space", k, ok, fits ? "enough" : "too little");
        if (!ok) { CHECK(w.remaining() >= k, "writer commit", "remaining %zu after a refused commit of %zu", w.remaining(), k); CHECK(w.size() == m.size(), "writer commit", "refused commit changed the size"); auto sp = w.aux_span(); CHECK(sp.size() >= k, "writer commit", "aux span %zu", sp.size()); memset(sp.data(), 'C', k); CHECK(w.commit(k), "writer commit", "second commit refused"); EV("writer refused commits"); }
        m.append(k, 'C'); break;
      }
      case 6: { size_t k = rng.below(m.size() + 3); if (rng.chance(1, 2)) k = rng.below(8); T("discard(%zu)", k); w.discard(k); m.resize(m.size() - std::min(k, m.size())); break; }
      case 7: // restrictions nest: each restore releases some part of what is held.
        if (!m.empty() && rng.chance(1, 6)) { // set aside space which already holds output, the next output grows the buffer and keeps everything.
          size_t k = w.remaining() + 1 + rng.below(std::min<size_t>(m.size(), 50)); T("restrict(%zu) of %zu over %zu", k, w.capacity(), m.size()); size_t before = w.capacity(); w.restrict(k); CHECK(w.capacity() == before - k && w.error() && w.extent() == m.size(), "writer restrict", "capacity %zu extent %zu after restrict(%zu) of %zu", w.capacity(), w.extent(), k, before); held += k; EV("writer restrict over output");
          std::string s(1 + rng.below(60), '%'); if (s.size() == 1) w.write('%'); else w.write(s.data(), s.size()); m += s; break; }
        if (held == 0 || rng.chance(2, 5)) { size_t k = rng.below(std::min<size_t>(w.remaining(), 50) + 1); T("restrict(%zu)", k); w.restrict(k); held += k; EV("writer restrict"); }
        else { size_t k = rng.flip() ? held : 1 + rng.below(held); T("restore(%zu of %zu)", k, held); w.restore(k); std::string s(k, ']'); if (rng.flip()) { size_t cap = w.capacity(); char const *d = w.data(); w.write(s.data(), s.size()); CHECK(w.capacity() == cap && w.data() == d, "writer restrict", "restricted space of %zu was not available after restore", k); m += s; } held -= k; EV("writer restrict restore"); }
        break;
      case 8: if (rng.chance(1, 20)) { T("clear"); w.clear(); m.clear(); } break;
      default: { Rng r2 = rng; std::string s = gen_fmt(rng, w, true); (void)r2; T("print -> %zu", s.size()); m += s; break; }
      }
      CHECK(!w.error(), "writer error", "error state after %zu bytes", m.size());
      CHECK(w.extent() == m.size() && w.size() == m.size(), "writer size", "extent %zu size %zu expected %zu", w.extent(), w.size(), m.size());
      eq_text(w.view(), m, "writer contents", "arena writer"); CHECK(w.capacity() >= w.size() && w.remaining() == w.capacity() - w.size(), "writer size", "capacity %zu size %zu remaining %zu", w.capacity(), w.size(), w.remaining());
      CHECK(arena->size() == asz, "writer arena", "writing changed the allocated size");
      if (!m.empty()) { auto r = arena->remnant(); CHECK(r.data() == w.data() && r.size() >= w.capacity() + held, "writer arena", "writer buffer [%zu] is not the arena remnant [%zu]", w.capacity(), r.size()); CHECK(arena->contains(w.data()), "writer arena", "not contained"); }
      obs(u64(m.size())); EV("writer steps");
    }
    // Commit the output to the arena.
    if (rng.chance(2, 3)) { size_t rs = arena->reserved_size(); auto s = arena->alloc(m.size()).rebind<char>(); if (!m.empty()) { CHECK(s.data() == w.data() && arena->reserved_size() == rs, "writer arena", "allocating the written size did not yield the written bytes"); } done.emplace_back(std::string_view{s.data(), s.size()}, m); }
    if (rng.flip()) put();
  }
  for (auto &d : done) eq_text(d.first, d.second, "writer contents", "committed output");
  for (auto &x : pre) for (size_t i = 0; i < x.n; ++i) CHECK(u8(x.p[i]) == pat(x.seed, i), "writer arena", "other arena memory was modified");
}

// ---- localized text
SUB(localize, 16000, 160000, LEAK) {
  MemArena arena{size_t(rng.below(200))}; std::vector<std::pair<std::string_view, std::string>> v; std::vector<bool> term;
  for (u64 n = rng.below(50); n; --n) {
    std::string s; for (size_t k = rng.below(rng.chance(1, 20) ? 5000 : 40); k; --k) s += char(rng.u()); bool c = rng.flip(); swoc::MemSpan<char> r; size_t sz0 = arena.size();
    if (rng.flip()) { HText h(s); r = c ? arena.localize_c(MemSpan<char const>(h.data(), h.size())) : arena.localize(MemSpan<char const>(h.data(), h.size())); }
    else { s.erase(std::remove(s.begin(), s.end(), '\0'), s.end()); std::unique_ptr<char[]> z(new char[s.size() + 1]); memcpy(z.get(), s.c_str(), s.size() + 1); r = c ? arena.localize_c(z.get()) : arena.localize(z.get()); }
    CHECK(r.size() == s.size(), "localize size", "%zu for %zu", r.size(), s.size()); CHECK(arena.size() == sz0 + s.size() + c, "localize size", "consumed %zu for %zu", arena.size() - sz0, s.size() + c);
    if (!s.empty()) CHECK(arena.contains(r.data()), "localize", "not in the arena");
    v.emplace_back(std::string_view{r.data(), r.size()}, s); term.push_back(c);
    for (size_t i = 0; i < v.size(); ++i) { eq_text(v[i].first, v[i].second, "localize contents", "localized"); if (term[i]) CHECK(v[i].first.data()[v[i].first.size()] == 0, "localize terminator", "missing"); }
    obs(u64(s.size()));
  }
}

// ---- scale: output of megabytes, tens of thousands of pooled objects.
SUB(writer_large, 60, 1500, LEAK) {
  std::optional<MemArena> arena; arena.emplace(size_t(rng.below(rng.flip() ? 400 : 1u << 20))); for (u64 i = rng.below(6); i; --i) arena->alloc(rng.below(9000));
  ArenaWriter w{*arena}; std::string m; size_t target = size_t(1) << (14 + rng.below(9)); target += rng.below(target);
  while (m.size() < target) {
    switch (rng.below(9)) {
    case 0: { char c = char(rng.u()); w.write(c); m += c; break; }
    case 1: case 2: { std::string s; size_t k = rng.chance(1, 4) ? std::min<size_t>(w.remaining() + rng.below(3), 3u << 20) : rng.below(rng.chance(1, 3) ? 700000 : 9000); s.resize(k); u64 x = rng.u(); for (size_t i = 0; i < k; ++i) s[i] = char(x >> (i % 57)) + char(i >> 9); w.write(s.data(), k); T("write(%zu)", k); m += s; break; }
    case 3: { size_t k = w.remaining() + 1 + rng.below(rng.flip() ? 300 : 300000); T("commit(%zu) of %zu", k, w.remaining()); CHECK(!w.commit(k), "writer commit", "commit past the space accepted"); auto sp = w.aux_span(); CHECK(sp.size() >= k, "writer commit", "aux span %zu after a refused commit of %zu", sp.size(), k); memset(sp.data(), int('A' + k % 26), k); CHECK(w.commit(k), "writer commit", "second commit refused"); m.append(k, char('A' + k % 26)); break; }
    case 4: { size_t k = rng.below(std::min<size_t>(m.size(), rng.flip() ? 20 : 200000) + 1); T("discard(%zu)", k); w.discard(k); m.resize(m.size() - k); break; }
    case 5: { std::string s(rng.below(200000), char('a' + rng.below(26))); std::string_view sv{s}; u64 v = rng.num(); T("print %zu", s.size()); w.print("{}|{}|{:x}", sv, v, v); char b[80]; snprintf(b, sizeof b, "|%llu|%llx", (unsigned long long)v, (unsigned long long)v); m += s + b; break; }
    default: for (size_t k = rng.below(3000); k; --k) { w.write("0123456789abcdef", k % 17); m.append("0123456789abcdef", k % 17); } break;
    }
    CHECK(!w.error() && w.extent() == m.size() && w.size() == m.size(), "writer size", "extent %zu size %zu expected %zu", w.extent(), w.size(), m.size());
    CHECK(w.capacity() >= w.size() && w.remaining() == w.capacity() - w.size(), "writer size", "capacity %zu size %zu remaining %zu", w.capacity(), w.size(), w.remaining());
    CHECK(w.view() == m, "writer contents", "output of %zu bytes differs", m.size()); obs(u64(m.size())); EV("large writer steps");
  }
  size_t rs = arena->reserved_size(); auto s = arena->alloc(m.size()).rebind<char>(); CHECK(s.data() == w.data() && arena->reserved_size() == rs, "writer arena", "allocating the written size did not yield the written bytes"); CHECK(std::string_view(s.data(), s.size()) == m, "writer contents", "committed output differs");
}
SUB(pool_large, 16, 300, LEAK) {
  using S = Slot<16, 9>; S::alive = 0; S::made = S::dead = 0; MemArena arena{size_t(rng.below(2000))}; FixedArena<S> fa{arena}; std::vector<std::pair<S *, u64>> live; std::set<S *> free_; u64 tag = rng.u(); size_t rounds = 2 + rng.below(4);
  while (rounds--) {
    for (size_t n = rng.below(9000); n; --n) {
      S *p = fa.make(++tag); if (!free_.empty()) CHECK(free_.erase(p), "fixed arena reuse", "%zu destroyed slots were available but a new one was made", free_.size());
      CHECK(0 == (uintptr_t(p) & 15) && p->intact(tag), "fixed arena construct", "object %zu", live.size()); live.emplace_back(p, tag); }
    for (auto &k : live) CHECK(k.first->intact(k.second), "fixed arena contents", "object changed while live");
    size_t drop = rng.chance(1, 4) ? live.size() : rng.below(live.size() + 1);
    for (; drop; --drop) { size_t i = rng.below(live.size()); std::swap(live[i], live.back()); fa.destroy(live.back().first); CHECK(free_.insert(live.back().first).second, "fixed arena reuse", "slot twice"); live.pop_back(); }
    CHECK(S::alive == long(live.size()), "fixed arena lifetime", "%ld alive, %zu expected", S::alive, live.size()); obs(u64(live.size()));
  }
  std::set<S *> uniq; for (auto &k : live) { CHECK(uniq.insert(k.first).second, "fixed arena reuse", "live slot handed out twice"); CHECK(k.first->intact(k.second), "fixed arena contents", "object changed while live"); fa.destroy(k.first); } CHECK(S::made == S::dead, "fixed arena lifetime", "%ld made %ld destroyed", S::made, S::dead); EV("large pools");
}
SUB(text_large, 40, 800, LEAK) {
  MemArena arena{size_t(rng.below(200))}; std::vector<std::pair<std::string_view, std::string>> v;
  for (u64 n = 1 + rng.below(8); n; --n) {
    std::string s((size_t(1) << (10 + rng.below(12))) + rng.below(70) - 35, 0); u64 x = rng.u(); for (size_t i = 0; i < s.size(); ++i) s[i] = char(1 + (x >> (i % 57) & 0x3f) + (i >> 12)); bool c = rng.flip(); size_t sz0 = arena.size();
    auto r = c ? arena.localize_c(std::string_view{s}) : arena.localize(std::string_view{s}); CHECK(r.size() == s.size() && arena.size() == sz0 + s.size() + c, "localize size", "%zu for %zu", r.size(), s.size());
    if (c) CHECK(r.data()[r.size()] == 0, "localize terminator", "missing after %zu", s.size()); v.emplace_back(std::string_view{r.data(), r.size()}, s); obs(u64(s.size()));
  }
  for (auto &k : v) CHECK(k.first == k.second, "localize contents", "localized text of %zu differs", k.second.size());
  { std::pmr::vector<u64> pv{&arena}; std::pmr::unordered_map<u64, u64> pm{&arena}; size_t n = rng.below(60000); for (size_t i = 0; i < n; ++i) { pv.push_back(i * 3); pm[i * 7] = i; } CHECK(pv.size() == n && pm.size() == n, "pmr contents", "count"); for (size_t i = 0; i < n; ++i) CHECK(pv[i] == i * 3 && pm[i * 7] == i, "pmr contents", "element %zu", i); }
}
