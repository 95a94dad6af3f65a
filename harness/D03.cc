// D03: the small vector behaves as a vector across the inline/dynamic boundary.
#include "vh.h"
#include "swoc/Vectray.h"
#include <optional>
#include <stdexcept>
#include <type_traits>
using namespace vh; using swoc::Vectray; using swoc::MemSpan;

// Element adaptors: construct from and read an int.
struct KOwned { using T = Owned; static constexpr bool copy = true, counted = true; static T mk(int x) { return T(x); } static int get(T const &t) { return t.get(); } template <class V> static void emplace(V &v, int x) { v.emplace_back(x); } };
struct KText { using T = std::string; static constexpr bool copy = true, counted = false; static T mk(int x) { auto s = std::to_string(x); if (x & 1) s += std::string(size_t(x % 40), '.'); return s; } static int get(T const &t) { return t.empty() ? -999 : atoi(t.c_str()); } template <class V> static void emplace(V &v, int x) { auto s = mk(x); v.emplace_back(s.data(), s.size()); } };
struct KUnique { using T = std::unique_ptr<Owned>; static constexpr bool copy = false, counted = false; static T mk(int x) { return std::make_unique<Owned>(x); } static int get(T const &t) { return t ? t->get() : -999; } template <class V> static void emplace(V &v, int x) { v.emplace_back(new Owned(x)); } };
struct KInt { using T = int; static constexpr bool copy = true, counted = false; static T mk(int x) { return x; } static int get(T const &t) { return t; } template <class V> static void emplace(V &v, int x) { v.emplace_back(x); } };
struct alignas(64) Wide { int x; char pad[3]; Wide const *self; explicit Wide(int v = 0) : x(v), self(this) { al(); } Wide(Wide const &o) : x(o.x), self(this) { al(); } Wide &operator=(Wide const &o) { x = o.x; return *this; } void al() const { CHECK(0 == reinterpret_cast<uintptr_t>(this) % 64, "alignment", "over-aligned element is misaligned"); } };
struct KWide { using T = Wide; static constexpr bool copy = true, counted = false; static T mk(int x) { return Wide(x); } static int get(T const &t) { CHECK(t.self == &t, "lifetime", "element relocated bitwise"); t.al(); return t.x; } template <class V> static void emplace(V &v, int x) { v.emplace_back(x); } };
struct KNested { using T = Vectray<Owned, 2>; static constexpr bool copy = true, counted = false; static T mk(int x) { T t; for (int i = 0; i < 1 + x % 4; ++i) t.emplace_back(x); return t; } static int get(T const &t) { if (t.empty()) return -999; for (auto &o : t) CHECK(o.get() == t[0].get(), "nested", "nested element"); CHECK(t.size() == size_t(1 + t[0].get() % 4), "nested", "nested size"); return t[0].get(); } template <class V> static void emplace(V &v, int x) { v.push_back(mk(x)); } };

template <class K, size_t N> struct Drv {
  using E = typename K::T; using V = Vectray<E, N>; using M = std::vector<int>; Rng &rng; static constexpr unsigned NS = 3; struct Slot { std::unique_ptr<V> v; M m; bool known = true; }; Slot s[NS]; int next = 1;
  explicit Drv(Rng &r) : rng(r) {}
  static void same(V &v, M const &m, char const *w) {
    V const &c = v; CHECK(c.size() == m.size() && c.empty() == m.empty(), "size", "%s: size %zu empty %d expected %zu", w, c.size(), c.empty(), m.size());
    for (size_t i = 0; i < m.size(); ++i) { CHECK(K::get(c[i]) == m[i] && &v[i] == &c[i], "index", "%s: [%zu] is %d expected %d", w, i, K::get(c[i]), m[i]); CHECK(&c[i] == c.data() + i && v.data() == c.data(), "data", "%s: data() at %zu", w, i); }
    size_t i = 0; for (auto const &t : c) { CHECK(i < m.size() && K::get(t) == m[i], "iterate", "%s: element %zu", w, i); ++i; } CHECK(i == m.size(), "iterate", "%s: %zu of %zu", w, i, m.size()); i = 0; for (auto &t : v) { CHECK(i < m.size() && &t == &v[i], "iterate", "%s: mutable element %zu", w, i); ++i; } CHECK(i == m.size(), "iterate", "%s: mutable %zu of %zu", w, i, m.size());
    if (!m.empty()) { typename V::const_reference f = c.front(); typename V::reference b = v.back(); CHECK(&f == &c[0] && &b == &v[m.size() - 1] && &v.front() == &f && &c.back() == &b, "ends", "%s: front or back", w); typename V::const_pointer p = &f; CHECK(p == c.data(), "ends", "%s", w); }
    MemSpan<E> sp = v; MemSpan<E const> cs = c; CHECK(sp.size() == m.size() && cs.size() == m.size() && (m.empty() || (sp.data() == v.data() && cs.data() == v.data())), "span", "%s: span conversion", w); EV("vector verifications");
  }
  void verify(char const *w) { u64 h = 1, live = 0; for (auto &x : s) if (x.v) { if (x.known) { same(*x.v, x.m, w); for (int y : x.m) h = h * 31 + u64(y); } live += x.v->size(); } if (K::counted) CHECK(u64(life().live) == live, "census", "%s: %lld elements alive, containers hold %llu", w, (long long)life().live, (unsigned long long)live); obs(h); }
  void step() {
    auto &a = s[rng.below(NS)]; auto &b = s[rng.below(NS)]; EV("vector operations");
    if (!a.v) { a.m.clear(); a.known = true; if (rng.chance(1, 5) && std::is_default_constructible_v<E> && K::counted) { size_t n = rng.below(2 * N + 4); T("construct %zu", n); a.v = std::make_unique<V>(n); a.m.assign(n, 0); CHECK(a.v->size() == n, "size", "constructed"); } else if (rng.flip()) { T("construct"); a.v = std::make_unique<V>(); } else { T("construct allocator"); std::allocator<E> al; a.v = std::make_unique<V>(al); } return; }
    if (!a.known && rng.below(3)) { if (rng.flip()) { T("destroy moved"); a.v.reset(); } else { T("reassign moved"); *a.v = V(); a.m.clear(); a.known = true; } return; }
    if (!a.known) return; size_t n = a.m.size();
    switch (rng.below(16)) {
    case 0: case 1: { int x = next++; auto t = K::mk(x); T("push_back move"); V &r = a.v->push_back(std::move(t)); CHECK(&r == a.v.get(), "return", "push_back"); a.m.push_back(x); break; }
    case 2: case 3: if constexpr (K::copy) { int x = next++; auto t = K::mk(x); T("push_back copy"); a.v->push_back(static_cast<E const &>(t)); CHECK(K::get(t) == x, "source", "source of a copy changed"); a.m.push_back(x); } break;
    case 4: case 5: { int x = next++; T("emplace_back"); K::emplace(*a.v, x); a.m.push_back(x); break; }
    case 6: case 7: if (n) { T("pop_back of %zu", n); CHECK(&a.v->pop_back() == a.v.get(), "return", "pop_back"); a.m.pop_back(); EV("pop_back"); } break;
    case 8: { size_t k = rng.below(3 * N + 6); T("reserve %zu", k); a.v->reserve(k); auto p = a.v->data(); size_t room = 0; if (k > n) { room = k - n; for (size_t i = 0; i < room; ++i) { int x = next++; K::emplace(*a.v, x); a.m.push_back(x); CHECK(a.v->data() == p, "reserve", "elements moved within the reserved size %zu", k); } } break; }
    case 9: if constexpr (K::copy) { if (n) { size_t i = rng.flip() ? 0 : rng.below(n); T("append own element %zu of %zu", i, n); if (rng.flip()) a.v->push_back((*a.v)[i]); else a.v->emplace_back((*a.v)[i]); a.m.push_back(a.m[i]); EV("own element"); } } break;
    case 10: if (rng.chance(1, 3)) { T("destroy"); a.v.reset(); } break;
    case 11: if constexpr (K::copy) { if (&a != &b && a.known) { T("copy"); if (b.v) { *b.v = *a.v; } else b.v = std::make_unique<V>(*a.v); b.m = a.m; b.known = true; EV("copies"); } else if (&a == &b) { T("self assign"); auto &self = *b.v; *a.v = self; } } break;
    case 12: if (&a != &b) { T("move"); if (b.v) *b.v = std::move(*a.v); else if (rng.flip()) b.v = std::make_unique<V>(std::move(*a.v)); else b.v = std::make_unique<V>(std::move(*a.v), std::allocator<E>{}); b.m = a.m; b.known = true; a.known = false; EV("moves"); } break;
    case 13: { T("move to another inline size"); if (rng.flip()) { Vectray<E, N + 2> t(std::move(*a.v)); a.known = false; Drv<K, N + 2>::same(t, a.m, "resized"); if (rng.flip()) { int x = next++; K::emplace(t, x); a.m.push_back(x); Drv<K, N + 2>::same(t, a.m, "resized append"); } *a.v = V(std::move(t)); a.known = true; } else { Vectray<E, (N > 1 ? N - 1 : 1)> t(std::move(*a.v)); a.known = false; Drv<K, (N > 1 ? N - 1 : 1)>::same(t, a.m, "resized"); *a.v = V(std::move(t)); a.known = true; } EV("size changing moves"); break; }
    case 14: if (n) { size_t i = rng.below(n); int x = next++; T("write %zu", i); if (rng.flip()) (*a.v)[i] = K::mk(x); else { size_t k = 0; for (auto &t : *a.v) if (k++ == i) t = K::mk(x); } a.m[i] = x; } break;
    default: { T("return by value"); auto f = [&](int c) { V t; for (int i = 0; i < c; ++i) K::emplace(t, next + i); return t; }; int c = int(rng.below(2 * N + 2)); *a.v = f(c); a.m.clear(); for (int i = 0; i < c; ++i) a.m.push_back(next++); }
    }
  }
  void run(size_t n) { for (size_t i = 0; i < n; ++i) { step(); verify("after step"); } }
};
template <class K> static void go(Rng &rng) { life().reset(); size_t n = 10 + rng.below(50); if (rng.flip()) { Drv<K, 3> d(rng); d.run(n); } else if constexpr (K::counted) { if (rng.flip()) { Drv<K, 1> d(rng); d.run(n); } else { Drv<K, 8> d(rng); d.run(n); } } else { Drv<K, 1> d(rng); d.run(n); } CHECK(life().live == 0, "census", "%lld elements never destroyed", (long long)life().live); }
SUB(owned, 60000, 1000000, LEAK) { go<KOwned>(rng); }
SUB(text, 40000, 700000, LEAK) { go<KText>(rng); }
SUB(move_only, 40000, 700000, LEAK) { go<KUnique>(rng); }
SUB(plain, 30000, 500000, LEAK) { go<KInt>(rng); }
SUB(aligned, 30000, 500000, LEAK) { go<KWide>(rng); }
SUB(nested, 30000, 500000, LEAK) { go<KNested>(rng); }

// Constructors which throw: nothing is lost, duplicated or destroyed twice.
static int g_fuse = -1;
struct Fuse { Owned o; static void burn() { if (g_fuse >= 0 && g_fuse-- == 0) throw std::runtime_error("fuse"); } explicit Fuse(int x) : o(x) { burn(); } Fuse(Fuse const &f) : o(f.o) { burn(); } Fuse(Fuse &&f) noexcept : o(std::move(f.o)) {} };
SUB(throwing, 60000, 900000, LEAK) {
  life().reset(); g_fuse = -1;
  { Vectray<Fuse, 3> v; std::vector<int> m; 
    for (size_t n = 4 + rng.below(20); n; --n) {
      int x = int(rng.below(100000)); bool ok = true; unsigned how = unsigned(rng.below(4)); T("append %u", how); g_fuse = rng.chance(1, 3) ? int(rng.below(2)) : -1;
      try { switch (how) { case 0: v.emplace_back(x); break; case 1: { Fuse f(x); v.push_back(f); break; } case 2: { Fuse f(x); v.push_back(std::move(f)); break; } default: if (!m.empty()) { x = m[0]; v.push_back(v[0]); } else v.emplace_back(x); } } catch (std::runtime_error const &) { ok = false; EV("constructor exceptions"); }
      g_fuse = -1; if (ok) m.push_back(x); if (!m.empty() && rng.chance(1, 5)) { v.pop_back(); m.pop_back(); }
      CHECK(v.size() == m.size() && life().live == i64(m.size()), "throw", "size %zu, %lld elements, expected %zu after %s", v.size(), (long long)life().live, m.size(), ok ? "success" : "failure"); for (size_t i = 0; i < m.size(); ++i) CHECK(v[i].o.get() == m[i], "throw", "element %zu", i); obs(u64(v.size() * 7 + ok));
    } }
  CHECK(life().live == 0, "census", "%lld elements never destroyed", (long long)life().live);
}
// Allocator is used and carried into the dynamic store.
static int g_stray = 0; // uses of an allocator nobody supplied.
template <class T> struct Counting { using value_type = T; int *n = &g_stray; Counting() = default; explicit Counting(int *p) : n(p) {} template <class U> Counting(Counting<U> const &o) : n(o.n) {} T *allocate(size_t k) { ++*n; return std::allocator<T>().allocate(k); } void deallocate(T *p, size_t k) { --*n; std::allocator<T>().deallocate(p, k); } template <class U> bool operator==(Counting<U> const &o) const { return n == o.n; } template <class U> bool operator!=(Counting<U> const &o) const { return n != o.n; } };
SUB(allocators, 20000, 300000, LEAK) {
  struct Item { int v = 5; Item() = default; explicit Item(int x) : v(x) {} }; 
  g_stray = 0; int n = 0; { Counting<int> c(&n); struct Z : Vectray<int, 2, Counting<int>> { using Vectray<int, 2, Counting<int>>::Vectray; }; size_t k = rng.below(9); Vectray<int, 2, Counting<int>> v(c); for (size_t i = 0; i < k; ++i) v.push_back(int(i)); CHECK((n > 0) == (k > 2), "allocator", "%d allocations for %zu elements", n, k); T("elements %zu", k);
    int o = 0; Vectray<int, 2, Counting<int>> w(std::move(v), Counting<int>(&o)); CHECK(w.size() == k && (o > 0) == (k > 2), "allocator", "%d allocations after moving %zu elements", o, k); for (size_t i = 0; i < k; ++i) CHECK(w[i] == int(i), "allocator", "element %zu", i); w.push_back(1); w.push_back(2); w.push_back(3); CHECK(o > 0, "allocator", "not carried");
    CHECK(g_stray == 0, "allocator", "%d allocations by an allocator nobody supplied", g_stray);
    { int z = 0; Vectray<int, 2, Counting<int>> r{Counting<int>(&z)}; r.reserve(3 + k); CHECK(z > 0 && g_stray == 0, "allocator", "reserve did not use the supplied allocator"); for (size_t i = 0; i < k; ++i) r.push_back(int(i)); CHECK(z == 1, "reserve", "%d allocations after reserving", z); }
    if (k <= 2) { int y = 0; { Vectray<int, 5, Counting<int>> f{Counting<int>(&y)}; for (size_t i = 0; i < k; ++i) f.push_back(int(i)); Vectray<int, 2, Counting<int>> t(std::move(f)); CHECK(t.size() == k && y == 0 && g_stray == 0, "allocator", "elements which fit inside were moved to dynamic storage"); Vectray<int, 5, Counting<int>> u(std::move(t)); CHECK(u.size() == k && y == 0 && g_stray == 0, "allocator", "elements which fit inside were moved to dynamic storage"); } }
    int q = 0; { Vectray<int, 2, Counting<int>> x(k, Counting<int>(&q)); CHECK(x.size() == k && (q > 0) == (k > 2), "allocator", "%d allocations for %zu constructed", q, k); for (int y : x) CHECK(y == 0, "allocator", "element not value initialized"); } CHECK(q == 0, "allocator", "unbalanced"); obs(u64(k)); }
  CHECK(n == 0, "allocator", "unbalanced %d", n); EV("allocator cases");
}

// Scale: thousands of elements through growth, removal and transfer.
template <class K, size_t N> static void scale(Rng &rng) {
  life().reset();
  { Vectray<typename K::T, N> v; std::vector<int> m; int next = 1; size_t rounds = 2 + rng.below(5);
    while (rounds--) {
      size_t want = rng.below(rng.chance(1, 3) ? 20000 : 3000);
      if (rng.chance(1, 3)) { size_t r = rng.below(12000); T("reserve %zu", r); v.reserve(r); }
      T("to %zu from %zu", want, m.size());
      while (m.size() < want) { int x = next++; if (m.size() && rng.chance(1, 64)) { if constexpr (K::copy) { size_t i = rng.below(m.size()); x = m[i]; v.push_back(v[i]); } else K::emplace(v, x); } else K::emplace(v, x); m.push_back(x); }
      while (m.size() > want) { v.pop_back(); m.pop_back(); if (K::counted && m.size() % 512 == 0) CHECK(life().live == i64(m.size()), "census", "%lld elements alive, %zu expected", (long long)life().live, m.size()); }
      Drv<K, N>::same(v, m, "large"); if (K::counted) CHECK(life().live == i64(m.size()), "census", "%lld elements alive, %zu expected", (long long)life().live, m.size());
      switch (rng.below(4)) {
      case 0: if constexpr (K::copy) { T("copy"); Vectray<typename K::T, N> t(v); Drv<K, N>::same(t, m, "large copy"); v = t; Drv<K, N>::same(v, m, "large copy back"); } break;
      case 1: { T("move"); Vectray<typename K::T, N> t(std::move(v)); Drv<K, N>::same(t, m, "large move"); v = std::move(t); break; }
      case 2: { T("move to another inline size"); Vectray<typename K::T, 600> t(std::move(v)); Drv<K, 600>::same(t, m, "large resized"); v = Vectray<typename K::T, N>(std::move(t)); break; }
      default: break;
      }
      Drv<K, N>::same(v, m, "large after transfer"); obs(u64(m.size())); EV("large vectors");
    } }
  CHECK(life().live == 0, "census", "%lld elements never destroyed", (long long)life().live);
}
SUB(large, 60, 1500, LEAK) { switch (rng.below(5)) { case 0: scale<KOwned, 3>(rng); break; case 1: scale<KInt, 1>(rng); break; case 2: scale<KText, 3>(rng); break; case 3: scale<KUnique, 3>(rng); break; default: scale<KOwned, 400>(rng); break; } }
