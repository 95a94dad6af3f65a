// Shared model-based driver for DiscreteSpace.
#pragma once
#include "vh.h"
#include <array>
#include <map>
#include <optional>
#include "swoc/DiscreteRange.h"
#include "swoc/IPAddr.h"

using swoc::DiscreteRange; using swoc::DiscreteSpace;
using vh::Rng; using vh::u64; using vh::u32; using vh::i64; using vh::u8;

// Tiny metric: values 0..N-1 with wrap around, and a comparison counter.
template <int N> struct Tiny {
  int v = 0; static const Tiny MIN, MAX; static inline u64 cmps = 0;
  Tiny() = default; constexpr Tiny(int x) : v(x) {}
  Tiny &operator++() { v = v == N - 1 ? 0 : v + 1; return *this; }
  Tiny &operator--() { v = v == 0 ? N - 1 : v - 1; return *this; }
  friend bool operator<(Tiny a, Tiny b) { ++cmps; return a.v < b.v; } friend bool operator<=(Tiny a, Tiny b) { ++cmps; return a.v <= b.v; }
  friend bool operator>(Tiny a, Tiny b) { ++cmps; return a.v > b.v; } friend bool operator>=(Tiny a, Tiny b) { ++cmps; return a.v >= b.v; }
  friend bool operator==(Tiny a, Tiny b) { ++cmps; return a.v == b.v; } friend bool operator!=(Tiny a, Tiny b) { ++cmps; return a.v != b.v; }
};
template <int N> inline const Tiny<N> Tiny<N>::MIN{0};
template <int N> inline const Tiny<N> Tiny<N>::MAX{N - 1};

// Wrapped built in integer (built in types do not satisfy the increment-on-rvalue need of the space).
template <class I> struct Int {
  I v = 0; static const Int MIN, MAX; using U = std::make_unsigned_t<I>;
  Int() = default; constexpr Int(I x) : v(x) {}
  Int &operator++() { v = I(U(v) + 1); return *this; } Int &operator--() { v = I(U(v) - 1); return *this; }
  friend bool operator<(Int a, Int b) { return a.v < b.v; } friend bool operator<=(Int a, Int b) { return a.v <= b.v; } friend bool operator>(Int a, Int b) { return a.v > b.v; }
  friend bool operator>=(Int a, Int b) { return a.v >= b.v; } friend bool operator==(Int a, Int b) { return a.v == b.v; } friend bool operator!=(Int a, Int b) { return a.v != b.v; }
};
template <class I> inline const Int<I> Int<I>::MIN{std::numeric_limits<I>::min()};
template <class I> inline const Int<I> Int<I>::MAX{std::numeric_limits<I>::max()};

// Mapping of a metric type to a window of model slots [0,N).  base: the metric value of slot 0.
template <class M> struct Win;
template <int K> struct Win<Tiny<K>> { static constexpr int N = K; static Tiny<K> to(int i) { return Tiny<K>(i); } static int from(Tiny<K> const &m) { return m.v; } static void pick(Rng &) {} };
template <class I> struct Win<Int<I>> { static constexpr int N = 96; using U = std::make_unsigned_t<I>; static inline I base = 0; static Int<I> to(int i) { return Int<I>(I(U(base) + U(i))); } static int from(Int<I> m) { U d = U(U(m.v) - U(base)); return d < U(N) ? int(d) : -1; }
  static void pick(Rng &r) { using L = std::numeric_limits<I>; base = r.pick<I>({L::min(), I(L::max() - (N - 1)), I(17), L::is_signed ? I(-40) : I(L::max() / 2 - 40)}); } };
template <> struct Win<swoc::IP4Addr> { static constexpr int N = 96; static inline uint32_t base = 0; static swoc::IP4Addr to(int i) { return swoc::IP4Addr(in_addr_t(base + uint32_t(i))); }
  static int from(swoc::IP4Addr const &m) { uint32_t x = m.host_order() - base; return x < N ? int(x) : -1; } static void pick(Rng &r) { base = r.pick({0u, ~0u - (N - 1), 0x0a000000u - 48, 0x7fffffffu - 40}); } };
template <> struct Win<swoc::IP6Addr> { static constexpr int N = 96; static inline vh::u128 base = 0;
  static swoc::IP6Addr mk(vh::u128 v) { in6_addr a; for (int i = 15; i >= 0; --i) { a.s6_addr[i] = u8(v); v >>= 8; } return swoc::IP6Addr(a); }
  static vh::u128 val(swoc::IP6Addr const &m) { in6_addr a = m.network_order(); vh::u128 v = 0; for (int i = 0; i < 16; ++i) v = v << 8 | a.s6_addr[i]; return v; }
  static swoc::IP6Addr to(int i) { return mk(base + vh::u128(i)); }
  static int from(swoc::IP6Addr const &m) { vh::u128 x = val(m) - base; return x < N ? int(x) : -1; }
  static void pick(Rng &r) { base = r.pick<vh::u128>({0, ~vh::u128(0) - (N - 1), (vh::u128(1) << 64) - 48, (vh::u128(0x20010db8) << 96) - 40, (vh::u128(5) << 64) - 50}); } };

// Payload access
inline int pval(int p) { return p; }
inline int pval(vh::Owned const &p) { return p.get(); }
inline void pset(int &p, int x) { p = x; }
inline int pval(std::string const &p) { return p.empty() ? 0 : int(u8(p[0])) - 'A' + 1; } // long enough to be on the heap.
inline void pset(std::string &p, int x) { p = x == 0 ? std::string{} : std::string(40, char('A' + x - 1)); }
inline void pset(vh::Owned &p, int x) { p.set(x); }

// Blenders: total functions f(old,color) -> (keep, new).
static constexpr int NBLEND = 8;
inline bool blend_fn(int kind, int &p, int c) {
  switch (kind) {
  case 0: p |= c; return true;            // bit or
  case 1: p ^= c; return p != 0;          // xor, clear when zero
  case 2: p = c; return true;             // assign
  case 3: p &= ~c; return p != 0;         // clear bits (plain colour invalid)
  case 4: return false;                   // erase all
  case 5: if (p == 0) return false; p = (p + c) & 7; return true; // only existing
  case 6: p = (p + c) & 3; return true;   // modular add, may yield default payload
  case 7: return true;                    // no change
  default: return true;
  }
}

template <class M, class P> struct SpaceDrv {
  using W = Win<M>; static constexpr int N = W::N; static constexpr int NONE = -1;
  struct Sp : DiscreteSpace<M, P> { using super = DiscreteSpace<M, P>; };
  Sp sp; std::array<int, N> model; bool blended = false;
  std::vector<int> cuts; // boundary slots used recently
  SpaceDrv() { model.fill(NONE); }

  void pick_range(Rng &r, int &a, int &b) {
    auto pt = [&]() -> int {
      switch (r.below(8)) {
      case 0: return 0; case 1: return N - 1;
      case 2: case 3: case 4: if (!cuts.empty()) { int c = cuts[r.below(cuts.size())] + int(r.in(-1, 1)); return std::min(std::max(c, 0), N - 1); } [[fallthrough]];
      default: return int(r.below(N)); }
    };
    a = pt(); b = r.chance(1, 6) ? a : (r.chance(1, 3) ? std::min<int>(N - 1, a + int(r.below(6))) : pt());
    if (a > b) std::swap(a, b);
    if (cuts.size() < 24) { cuts.push_back(a); cuts.push_back(b); } else { cuts[r.below(24)] = a; cuts[r.below(24)] = b; }
  }
  // op: 0 mark 1 fill 2 erase 3.. blend(kind op-3)
  void apply(int op, int a, int b, int p) {
    using R = DiscreteRange<M>; R rng{W::to(a), W::to(b)};
    vh::T("%s[%d,%d] p=%d", op == 0 ? "mark" : op == 1 ? "fill" : op == 2 ? "erase" : (std::string("blend") + char('0' + op - 3)).c_str(), a, b, p);
    last_op = op; la = a; lb = b; lp = p;
    switch (op) {
    case 0: sp.mark(rng, P(p)); EV("mark"); break;
    case 1: sp.fill(rng, P(p)); EV("fill"); break;
    case 2: sp.erase(rng); EV("erase"); break;
    default: { int k = op - 3; EV("blend"); blended = true;
      sp.blend(rng, p, [k](P &x, int c) { int v = pval(x); bool ret = blend_fn(k, v, c); pset(x, v); return ret; }); }
    }
    if (a > b) { EV("empty_range_op"); return; }
    for (int i = a; i <= b; ++i) {
      int &m = model[i];
      switch (op) { case 0: m = p; break; case 1: if (m == NONE) m = p; break; case 2: m = NONE; break;
        default: { int v = m == NONE ? 0 : m; m = blend_fn(op - 3, v, p) ? v : NONE; } }
    }
  }
  // The payload argument (and sometimes the range) is the one stored in the space.
  void apply_own(Rng &r, int op, int a, int b) {
    using R = DiscreteRange<M>; size_t k = sp.count(); if (k == 0) return; auto it = sp.begin(); for (size_t j = r.below(k); j > 0; --j) ++it; R rng{W::to(a), W::to(b)}; bool own = r.chance(1, 4); if (own) { a = W::from(it->range().min()); b = W::from(it->range().max()); if (r.flip()) { it = sp.begin(); for (size_t j = r.below(k); j > 0; --j) ++it; a = W::from(it->range().min()); b = W::from(it->range().max()); } }
    auto const &rr = own ? it->range() : rng; auto pt = it; if (own && r.flip()) { pt = sp.begin(); for (size_t j = r.below(k); j > 0; --j) ++pt; } P const &ref = pt->payload(); int p = pval(const_cast<P &>(ref));
    vh::T("op %d [%d,%d] by stored payload %d own range %d", op, a, b, p, own); last_op = op; la = a; lb = b; lp = p; EV("stored payload as argument"); if (own) EV("stored range as argument");
    switch (op) { case 0: sp.mark(rr, ref); break; case 1: sp.fill(rr, ref); break; case 2: sp.erase(rr); break;
    default: { int kk = op - 3; blended = true; sp.blend(rr, ref, [kk](P &x, P const &c) { int v = pval(x); bool ret = blend_fn(kk, v, pval(c)); pset(x, v); return ret; }); } }
    for (int i = a; i <= b; ++i) { int &m = model[i]; switch (op) { case 0: m = p; break; case 1: if (m == NONE) m = p; break; case 2: m = NONE; break; default: { int v = m == NONE ? 0 : m; m = blend_fn(op - 3, v, p) ? v : NONE; } } }
  }
  int last_op = 0, la = 0, lb = 0, lp = 0;
  // Oracle: contents by iteration equal the model map; ranges inside the window.
  void check_map() {
    int pos = 0; size_t n = 0;
    auto const &csp = sp;
    for (auto const &node : csp) {
      ++n; CHECK(n <= size_t(N) + 2, "iter-runaway", "iteration exceeds metric size");
      auto const &r = node.range(); int a = W::from(r.min()), b = W::from(r.max());
      CHECK(a >= 0 && b >= 0 && a <= b && a < N && b < N, "stray-range", "range [%d,%d] outside the painted window or empty after op %d [%d,%d]", a, b, last_op, la, lb);
      CHECK(a >= pos, "order", "range [%d,%d] overlaps/precedes previous (pos %d) after op %d [%d,%d]", a, b, pos, last_op, la, lb);
      for (; pos < a; ++pos) CHECK(model[pos] == NONE, "map", "value %d should have payload %d but is uncoloured after op %d [%d,%d] p=%d", pos, model[pos], last_op, la, lb, lp);
      int p = pval(const_cast<std::decay_t<decltype(node)> &>(node).payload());
      for (; pos <= b; ++pos) CHECK(model[pos] == p, "map", "value %d has payload %d expected %d after op %d [%d,%d] p=%d", pos, p, model[pos], last_op, la, lb, lp);
      vh::obs(u64(a) << 32 | u64(b) << 16 | u64(p));
    }
    for (; pos < N; ++pos) CHECK(model[pos] == NONE, "map", "value %d should have payload %d but is uncoloured after op %d [%d,%d] p=%d", pos, model[pos], last_op, la, lb, lp);
  }
  // Structure oracle: reverse iteration mirrors forward, counts agree.
  void check_struct() {
    std::vector<std::pair<int, int>> f, b; size_t n = 0;
    for (auto &node : sp) { f.push_back({W::from(node.range().min()), W::from(node.range().max())}); CHECK(++n <= size_t(N) + 2, "iter-runaway", "forward"); }
    for (size_t i = 0; i < f.size(); ++i) CHECK(f[i].first >= 0 && f[i].first <= f[i].second && (i == 0 || f[i - 1].second < f[i].first), "order", "range %zu [%d,%d]", i, f[i].first, f[i].second);
    n = 0; for (auto it = sp.end(); it != sp.begin();) { --it; b.push_back({W::from(it->range().min()), W::from(it->range().max())}); CHECK(++n <= size_t(N) + 2, "iter-runaway", "backward"); }
    std::reverse(b.begin(), b.end());
    CHECK(f == b, "reverse", "backward iteration (%zu ranges) differs from forward (%zu)", b.size(), f.size());
    CHECK(sp.count() == f.size(), "count", "count() = %zu, iterated %zu", sp.count(), f.size());
    CHECK(sp.empty() == f.empty(), "empty", "empty() = %d with %zu ranges", sp.empty(), f.size());
    vh::obs(f.size());
  }
};

// Large spaces: the model is a map of disjoint segments instead of an array.
template <class M> struct Wide;
template <> struct Wide<Int<uint64_t>> { static Int<uint64_t> to(u64 v) { return Int<uint64_t>(v); } static u64 from(Int<uint64_t> m) { return m.v; } };
template <> struct Wide<Int<int>> { static Int<int> to(u64 v) { return Int<int>(int(i64(v) - 100000)); } static u64 from(Int<int> m) { return u64(i64(m.v) + 100000); } };
template <> struct Wide<swoc::IP4Addr> { static constexpr u32 base = 0x7fffc000u; static swoc::IP4Addr to(u64 v) { return swoc::IP4Addr(in_addr_t(base + u32(v))); } static u64 from(swoc::IP4Addr const &m) { return u32(m.host_order() - base); } };
template <> struct Wide<swoc::IP6Addr> { using W = Win<swoc::IP6Addr>; static constexpr vh::u128 base = (vh::u128(7) << 64) - 0x4000; static swoc::IP6Addr to(u64 v) { return W::mk(base + v); } static u64 from(swoc::IP6Addr const &m) { return u64(W::val(m) - base); } };
struct Segs {
  struct Seg { u64 b; int p; }; std::map<u64, Seg> m; // start -> last value, payload
  void cut(u64 x) { // no segment spans from before x to x or later
    auto i = m.upper_bound(x); if (i == m.begin()) return; --i; if (i->first < x && i->second.b >= x) { Seg s = i->second; i->second.b = x - 1; m[x] = s; }
  }
  template <class F> void apply(u64 a, u64 b, F f) { // f(bool present, int &p) -> keep
    cut(a); cut(b + 1); u64 pos = a; std::vector<std::pair<u64, Seg>> out; auto i = m.lower_bound(a);
    auto gap = [&](u64 x, u64 y) { int p = 0; if (f(false, p)) out.push_back({x, {y, p}}); };
    while (i != m.end() && i->first <= b) { if (i->first > pos) gap(pos, i->first - 1); int p = i->second.p; pos = i->second.b + 1; if (f(true, p)) out.push_back({i->first, {i->second.b, p}}); i = m.erase(i); }
    if (pos <= b) gap(pos, b);
    for (auto &o : out) m[o.first] = o.second;
    // combine touching segments of the same payload.
    auto k = m.lower_bound(a); if (k != m.begin()) --k;
    while (k != m.end() && k->first <= b + 1) { auto n = std::next(k); if (n != m.end() && n->first == k->second.b + 1 && n->second.p == k->second.p) { k->second.b = n->second.b; m.erase(n); } else k = n; }
  }
  void op(int op, u64 a, u64 b, int c) {
    switch (op) { case 0: apply(a, b, [c](bool, int &p) { p = c; return true; }); break; case 1: apply(a, b, [c](bool in, int &p) { if (!in) p = c; return true; }); break; case 2: apply(a, b, [](bool, int &) { return false; }); break;
    default: apply(a, b, [=](bool in, int &p) { if (!in) p = 0; return blend_fn(op - 3, p, c); }); }
  }
  typename std::map<u64, Seg>::const_iterator at(u64 x) const { auto i = m.upper_bound(x); if (i == m.begin()) return m.end(); --i; return i->second.b >= x ? i : m.end(); }
};
// A history which grows a space to some number of ranges, works on it and (partly) shrinks it.
template <class M, class SP> struct LargeDrv {
  using W = Wide<M>; using R = DiscreteRange<M>; SP sp; Segs q; bool blended = false; u64 domain = 0; std::vector<u64> edges;
  void apply(int op, u64 a, u64 b, int p) {
    vh::T("%s[%llu,%llu] p=%d", op == 0 ? "mark" : op == 1 ? "fill" : op == 2 ? "erase" : (std::string("blend") + char('0' + op - 3)).c_str(), (unsigned long long)a, (unsigned long long)b, p); R r{W::to(a), W::to(b)};
    switch (op) { case 0: sp.mark(r, p); break; case 1: sp.fill(r, p); break; case 2: sp.erase(r); break;
    default: blended = true; sp.blend(r, p, [op](int &x, int c) { return blend_fn(op - 3, x, c); }); }
    q.op(op, a, b, p); edges = {a, b, a ? a - 1 : a, b + 1}; EV("large ops");
  }
  void map() { // every value, via ranges
    auto i = q.m.begin(); u64 pos = 0, n = 0; auto const &c = sp;
    for (auto const &node : c) {
      u64 a = W::from(node.range().min()), b = W::from(node.range().max()); ++n; CHECK(a <= b && (n == 1 || a >= pos), "order", "range %llu [%llu,%llu] after %llu", (unsigned long long)n, (unsigned long long)a, (unsigned long long)b, (unsigned long long)pos); pos = b + 1; int p = const_cast<std::decay_t<decltype(node)> &>(node).payload();
      CHECK(i != q.m.end() && (a >= i->first && b <= i->second.b && p == i->second.p), "map", "range [%llu,%llu]:%d is not part of the expected range [%llu,%llu]:%d", (unsigned long long)a, (unsigned long long)b, p, (unsigned long long)(i == q.m.end() ? 0 : i->first), (unsigned long long)(i == q.m.end() ? 0 : i->second.b), i == q.m.end() ? 0 : i->second.p);
      CHECK(a == i->first || blended, "coalesce", "touching ranges of one payload at %llu", (unsigned long long)a); if (a == i->first) gap = a; CHECK(a == gap, "map", "values missing before %llu", (unsigned long long)a); gap = b + 1; if (b == i->second.b) ++i;
    }
    CHECK(i == q.m.end(), "map", "ranges missing: expected [%llu,%llu]", (unsigned long long)(i == q.m.end() ? 0 : i->first), (unsigned long long)(i == q.m.end() ? 0 : i->second.b));
    CHECK(sp.count() == n && sp.empty() == (n == 0), "count", "count %zu, %llu ranges", sp.count(), (unsigned long long)n); auto it = sp.end(); u64 k = 0; u64 last = ~u64(0); while (it != sp.begin()) { --it; u64 b = W::from(it->range().max()); CHECK(k == 0 || b < last, "reverse", "at %llu", (unsigned long long)b); last = W::from(it->range().min()); ++k; CHECK(k <= n, "reverse", "runaway"); } CHECK(k == n, "reverse", "%llu of %llu ranges", (unsigned long long)k, (unsigned long long)n);
    vh::obs(n); EV("large comparisons");
  }
  u64 gap = 0;
  void query(Rng &rng) { // points near the latest edges and at random
    std::vector<u64> v = edges; for (int k = 0; k < 3; ++k) v.push_back(rng.below(domain + 10)); if (!q.m.empty()) { auto i = q.m.lower_bound(rng.below(domain)); if (i == q.m.end()) i = q.m.begin(); v.push_back(i->first); v.push_back(i->second.b); }
    for (u64 x : v) {
      auto e = q.at(x); auto f = sp.find(W::to(x)); CHECK((f == sp.end()) == (e == q.m.end()), "find", "%llu found %d expected %d", (unsigned long long)x, f != sp.end(), e != q.m.end()); if (f != sp.end()) CHECK(W::from(f->range().min()) <= x && W::from(f->range().max()) >= x && f->payload() == e->second.p, "find", "%llu", (unsigned long long)x);
      auto l = sp.lower_bound(W::to(x)); auto lq = q.m.upper_bound(x); bool has = lq != q.m.begin(); CHECK((l != sp.end()) == has, "lower_bound", "%llu", (unsigned long long)x);
      if (has) { --lq; u64 a = W::from(l->range().min()); CHECK(a <= x && a >= lq->first && a <= lq->second.b, "lower_bound", "%llu is range at %llu expected %llu", (unsigned long long)x, (unsigned long long)a, (unsigned long long)lq->first); if (!blended) CHECK(a == lq->first, "lower_bound", "%llu", (unsigned long long)x); else { auto nx = l; ++nx; CHECK(nx == sp.end() || W::from(nx->range().min()) > x, "lower_bound", "%llu is not the last", (unsigned long long)x); } }
      auto u = sp.upper_bound(W::to(x)); if (l != sp.end()) { auto nx = l; ++nx; CHECK(u == nx, "upper_bound", "%llu does not follow the lower bound", (unsigned long long)x); } else CHECK(u == sp.begin(), "upper_bound", "%llu is not the first range", (unsigned long long)x);
      u64 y = x + rng.below(rng.flip() ? 40 : domain / 4 + 2); auto in = sp.intersection(R{W::to(x), W::to(y)}); u64 n = 0, cnt = 0, want = 0; for (auto i = in.first; i != in.second; ++i) { ++n; u64 a = W::from(i->range().min()), b = W::from(i->range().max()); CHECK(b >= x && a <= y, "intersection", "[%llu,%llu] has [%llu,%llu]", (unsigned long long)x, (unsigned long long)y, (unsigned long long)a, (unsigned long long)b); cnt += std::min(b, y) - std::max(a, x) + 1; }
      auto s = q.m.upper_bound(x); if (s != q.m.begin()) --s; for (; s != q.m.end() && s->first <= y; ++s) if (s->second.b >= x) want += std::min(s->second.b, y) - std::max(s->first, x) + 1; CHECK(cnt == want, "intersection", "[%llu,%llu] has %llu values expected %llu", (unsigned long long)x, (unsigned long long)y, (unsigned long long)cnt, (unsigned long long)want); vh::obs(n); EV("large queries");
    }
  }
  void run(Rng &rng, bool queries) {
    u64 n = rng.chance(1, 6) ? 2000 + rng.below(3000) : 300 + rng.below(1200); domain = n * 8; int np = rng.pick({1, 2, 3, 50}), style = int(rng.below(5)); u64 stride = rng.pick({1, 7, 33, 129, 1025}) * 2 + 1; vh::T("%llu ranges style %d payloads %d", (unsigned long long)n, style, np);
    for (u64 i = 0; i < n; ++i) { // grow
      u64 k = style == 0 ? i : style == 1 ? n - 1 - i : style == 2 ? rng.below(n) : style == 3 ? (i & 1 ? n - 1 - i / 2 : i / 2) : (i * stride) % n; u64 a = k * 8 + rng.below(3), b = a + rng.below(6); apply(rng.chance(1, 5) ? 1 : rng.chance(1, 9) ? 3 + int(rng.below(3)) : 0, a, b, 1 + int(rng.below(u64(np)))); if (queries && i % 16 == 0) query(rng); if (rng.chance(1, n / 3 + 1)) map();
    }
    map(); EV("large spaces"); vh::obs(sp.count());
    for (u64 i = 0, ops = 40 + rng.below(200); i < ops; ++i) { // work
      u64 a = rng.below(domain), b = a + rng.below(rng.chance(1, 30) ? domain / 2 : rng.chance(1, 4) ? 400 : 20); if (!q.m.empty() && rng.flip()) { auto s = q.m.lower_bound(a); if (s != q.m.end()) { a = s->first - (s->first && rng.flip()); if (rng.flip()) b = s->second.b + rng.below(2); if (b < a) b = a; } }
      int op = rng.chance(1, 3) ? int(rng.below(3)) : 3 + int(rng.below(NBLEND)); if (op == 7 && b - a > 400) op = 3; apply(op, a, b, 1 + int(rng.below(u64(np)))); if (queries) query(rng); if (rng.chance(1, 40)) map();
    }
    map(); u64 keep = rng.below(n); // shrink in some order
    for (u64 i = 0; i < n - keep; ++i) { u64 k = style == 0 ? i : style == 1 ? n - 1 - i : rng.below(n); apply(2, k * 8, k * 8 + 7, 0); if (queries && i % 16 == 0) query(rng); if (rng.chance(1, n / 2 + 1)) map(); }
    map(); if (rng.flip()) { sp.clear(); q.m.clear(); map(); }
  }
};
