#include "ip.h"
#include "spaces.h"
#include <map>
using swoc::IPSpace; using swoc::IPRangeSet; using swoc::IPRangeView;
// N04: IPSpace / IPRangeSet against two independent per-value maps (one window of values per family).
using W4 = Win<IP4Addr>; using W6 = Win<IP6Addr>; static constexpr int N = 96; static_assert(W4::N == N && W6::N == N);
using Map = std::array<int, N>; struct Seg { bool six; int a, b, p; };
static bool same(Seg const &x, Seg const &y) { return x.six == y.six && x.a == y.a && x.b == y.b && x.p == y.p; }
static IPRange mkr(bool six, int a, int b) { if (six) return IPRange(IP6Range(W6::to(a), W6::to(b))); return IPRange(IP4Range(W4::to(a), W4::to(b))); }
template <class RV> static Seg seg_of(RV const &rv, int p) {
  CHECK(rv.is_ip4() != rv.is_ip6(), "range-family", "range view reports ip4=%d ip6=%d", rv.is_ip4(), rv.is_ip6());
  if (rv.is_ip6()) { IP6Range r = rv.ip6(); return {true, W6::from(r.min()), W6::from(r.max()), p}; }
  IP4Range r = rv.ip4(); return {false, W4::from(r.min()), W4::from(r.max()), p};
}
static string segs(std::vector<Seg> const &v) { string r; for (auto &s : v) { char b[64]; snprintf(b, sizeof b, "%c%d-%d:%d ", s.six ? '6' : '4', s.a, s.b, s.p); r += b; } return r; }
template <class A, class B> static void eqsegs(A const &got, B const &want, char const *or_, char const *ctx) { CHECK(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin(), same), or_, "%s: got [%s] expected [%s]", ctx, segs(got).c_str(), segs(want).c_str()); }

struct Drv {
  IPSpace<int> sp; Map m4, m6; std::vector<int> cuts; string last;
  // The segmentation is not fixed by this property where payloads are equal, so the reference is per family: maximal runs refined by the space's own cuts.
  Drv() { m4.fill(-1); m6.fill(-1); }
  Map &m(bool six) { return six ? m6 : m4; }
  int pt(Rng &r) { switch (r.below(7)) { case 0: return 0; case 1: return N - 1; case 2: case 3: if (!cuts.empty()) return std::min(std::max(cuts[r.below(cuts.size())] + int(r.in(-1, 1)), 0), N - 1); [[fallthrough]]; default: return int(r.below(N)); } }
  void range(Rng &r, int &a, int &b) { a = pt(r); b = r.chance(1, 6) ? a : pt(r); if (a > b && !r.chance(1, 12)) std::swap(a, b); if (cuts.size() < 20) { cuts.push_back(a); cuts.push_back(b); } else cuts[r.below(20)] = a; }
  void op(Rng &rng) {
    bool six = rng.flip(); int a, b, p = 1 + int(rng.below(3)); range(rng, a, b); unsigned o = rng.below(16); char buf[100]; snprintf(buf, sizeof buf, "op%u %s[%d,%d]p%d", o, six ? "v6" : "v4", a, b, p); last = buf; vh::T("%s", buf);
    Map &mm = m(six); bool e = a > b; int k = int(rng.below(NBLEND)); auto bl = [k](int &x, int c) { return blend_fn(k, x, c); };
    if (!e && rng.chance(1, 8) && !sp.empty()) { // colour (and sometimes range) by reference to what is stored in the space.
      size_t n = sp.count(); auto it = sp.begin(), jt = sp.begin(); for (size_t i = rng.below(n); i > 0; --i) ++it; for (size_t i = rng.below(n); i > 0; --i) ++jt; int const &ref = it->payload(); p = ref; IPRange r = mkr(six, a, b); bool own = rng.chance(1, 3); unsigned w = unsigned(rng.below(3)); vh::T("op %u by stored payload %d, own range %d", w, p, own); EV("stored payload as argument");
      if (own) { Seg s = seg_of(jt->range_view(), 0); six = s.six; a = s.a; b = s.b; r = jt->range(); } Map &om = m(six);
      if (w == 0) sp.mark(r, ref); else if (w == 1) sp.fill(r, ref); else sp.blend(r, ref, [k](int &x, int const &c) { return blend_fn(k, x, c); });
      for (int i = a; i <= b; ++i) { if (w == 0) om[i] = p; else if (w == 1) { if (om[i] < 0) om[i] = p; } else { int v = om[i] < 0 ? 0 : om[i]; om[i] = blend_fn(k, v, p) ? v : -1; } }
      return;
    }
    switch (o) {
    case 0: case 1: case 2: sp.mark(mkr(six, a, b), p); EV("mark"); for (int i = a; i <= b; ++i) mm[i] = p; break;
    case 3: case 4: sp.fill(mkr(six, a, b), p); EV("fill"); for (int i = a; i <= b; ++i) if (mm[i] < 0) mm[i] = p; break;
    case 5: case 6: case 7: sp.erase(mkr(six, a, b)); EV("erase"); for (int i = a; i <= b; ++i) mm[i] = -1; break;
    case 8: case 9: case 10: case 11: EV("blend"); vh::T("blend %d", k);
      if (o == 8) sp.blend(mkr(six, a, b), p, bl); else if (six) sp.blend(IP6Range(W6::to(a), W6::to(b)), p, bl); else sp.blend(IP4Range(W4::to(a), W4::to(b)), p, bl);
      for (int i = a; i <= b; ++i) { int v = mm[i] < 0 ? 0 : mm[i]; mm[i] = blend_fn(k, v, p) ? v : -1; } break;
    case 12: if (rng.chance(1, 4)) { sp.clear(); m4.fill(-1); m6.fill(-1); EV("clear"); } break;
    case 13: { IPRange inv; EV("invalid"); switch (rng.below(4)) { case 0: sp.mark(inv, p); break; case 1: sp.fill(inv, p); break; case 2: sp.erase(inv); break; default: sp.blend(inv, p, bl); } break; }
    case 14: { // payload write through the iterator changes exactly that range
      IPAddr q = six ? IPAddr(W6::to(a)) : IPAddr(W4::to(a)); auto it = sp.find(q); if (it != sp.end()) { Seg s = seg_of(it->range_view(), 0); if (rng.flip()) it->payload() = p; else { auto &&[rv, pay] = *it; pay = p; (void)rv; } for (int i = s.a; i <= s.b; ++i) mm[i] = p; EV("payload_write"); } break; }
    default: { IPRange er; if (six) er = IP6Range(); else er = IP4Range(); EV("empty"); switch (rng.below(4)) { case 0: sp.mark(er, p); break; case 1: sp.fill(er, p); break; case 2: sp.erase(er); break; default: if (six) sp.blend(IP6Range(), p, bl); else sp.blend(IP4Range(), p, bl); } }
    }
    if (e) EV("reversed_range");
  }
  void covers(std::vector<Seg> const &v, char const *ctx) {
    Map g4, g6; g4.fill(-1); g6.fill(-1); bool six = false; int pos = 0;
    for (auto &s : v) { CHECK(s.a >= 0 && s.b >= s.a && s.b < N, "stray", "%s: range outside window after %s: %s", ctx, last.c_str(), segs(v).c_str()); if (s.six != six) { CHECK(s.six, "family-order", "%s: IPv4 range after IPv6 range: %s", ctx, segs(v).c_str()); six = true; pos = 0; }
      CHECK(s.a >= pos, "order", "%s after %s: %s", ctx, last.c_str(), segs(v).c_str()); pos = s.b + 1; for (int i = s.a; i <= s.b; ++i) (s.six ? g6 : g4)[i] = s.p; }
    for (int f = 0; f < 2; ++f) for (int i = 0; i < N; ++i) { int g = (f ? g6 : g4)[i], w = (f ? m6 : m4)[i]; CHECK(g == w, "map", "%s after %s: IPv%d value %d has %d expected %d (-1 none): %s", ctx, last.c_str(), f ? 6 : 4, i, g, w, segs(v).c_str()); }
  }
  std::vector<Seg> all; size_t n4 = 0;
  template <class SP> std::vector<Seg> fwd(SP &s, char const *ctx) { std::vector<Seg> v; for (auto it = s.begin(); it != s.end(); ++it) { v.push_back(seg_of((*it).range_view(), (*it).payload())); CHECK(v.size() <= 2 * N + 2, "runaway", "%s", ctx); } return v; }
  void check(Rng &rng) {
    IPSpace<int> const &c = sp; all = fwd(sp, "forward"); covers(all, "forward"); n4 = 0; for (auto &s : all) { n4 += !s.six; vh::obs(u64(s.six) << 48 | u64(s.a) << 32 | u64(s.b) << 16 | u64(s.p)); }
    eqsegs(fwd(c, "const forward"), all, "const-iter", "const forward");
    std::vector<Seg> v; for (auto &&[rv, pay] : c) v.push_back(seg_of(rv, pay)); eqsegs(v, all, "binding", "structured binding"); v.clear();
    for (auto it = c.begin(); it != c.end();) { auto o = it++; IPRange r = o->range(); int p = o->payload(); v.push_back(seg_of(r, p)); CHECK(*o == std::make_tuple(r, p), "value", "value compare"); auto t = o->tuple(); CHECK(std::get<1>(t) == p && std::get<0>(t) == r, "value", "tuple()"); } eqsegs(v, all, "post-iter", "post increment"); v.clear();
    for (auto it = sp.end(); it != sp.begin();) { --it; v.push_back(seg_of(it->range_view(), it->payload())); CHECK(v.size() <= 2 * N + 2, "runaway", "backward"); } std::reverse(v.begin(), v.end()); eqsegs(v, all, "backward", "backward"); v.clear();
    for (auto it = c.end(); it != c.begin();) { auto pre = it; auto o = it--; CHECK(o == pre && o != it, "iter-post", "post decrement result"); v.push_back(seg_of(it->range_view(), it->payload())); CHECK(v.size() <= 2 * N + 2, "runaway", "backward"); } std::reverse(v.begin(), v.end()); eqsegs(v, all, "backward", "const backward, post decrement"); v.clear();
    CHECK(c.count() == all.size() && c.count_ip4() == n4 && c.count_ip6() == all.size() - n4 && c.count(AF_INET) == n4 && c.count(AF_INET6) == all.size() - n4 && c.count(AF_UNIX) == 0 && c.empty() == all.empty(), "count", "count %zu ip4 %zu ip6 %zu empty %d with %s", c.count(), c.count_ip4(), c.count_ip6(), c.empty(), segs(all).c_str());
    std::vector<Seg> w4(all.begin(), all.begin() + n4), w6(all.begin() + n4, all.end());
    for (auto it = c.begin_ip4(); it != c.end_ip4(); ++it) v.push_back(seg_of(it->range_view(), it->payload())); eqsegs(v, w4, "family-iter", "begin_ip4"); v.clear();
    for (auto it = c.begin_ip6(); it != c.end_ip6(); ++it) v.push_back(seg_of(it->range_view(), it->payload())); eqsegs(v, w6, "family-iter", "begin_ip6"); v.clear();
    for (auto it = sp.begin_ip4(); it != sp.end_ip4(); ++it) v.push_back(seg_of(it->range_view(), it->payload())); eqsegs(v, w4, "family-iter", "begin_ip4"); v.clear();
    for (auto it = sp.end_ip6(); it != sp.begin_ip6();) { --it; v.insert(v.begin(), seg_of(it->range_view(), it->payload())); } eqsegs(v, w6, "family-iter", "end_ip6 down"); v.clear();
    for (auto it = sp.end_ip4(); it != sp.begin_ip4();) { --it; v.insert(v.begin(), seg_of(it->range_view(), it->payload())); } eqsegs(v, w4, "family-iter", "end_ip4 down"); v.clear();
    for (int f : {AF_INET, AF_INET6, AF_UNIX}) { for (auto it = c.begin(sa_family_t(f)); it != c.end(sa_family_t(f)); ++it) v.push_back(seg_of(it->range_view(), it->payload())); eqsegs(v, f == AF_INET ? w4 : f == AF_INET6 ? w6 : std::vector<Seg>{}, "family-iter", "begin(family)"); v.clear(); }
    // lookups
    for (int k = 0; k < 10; ++k) { bool six = rng.flip(); int i = pt(rng); int w = m(six)[i]; IPAddr q = six ? IPAddr(W6::to(i)) : IPAddr(W4::to(i)); unsigned how = rng.below(4); Seg s{six, -1, -1, -1};
      auto use = [&](auto it, auto end, auto begin) { if (it == end) return; s = seg_of(it->range_view(), it->payload()); size_t at = 0; while (at < all.size() && !same(all[at], s)) ++at; CHECK(at < all.size(), "find-range", "find returned a range not in the space");
        // the iterator has to continue the iteration in both directions
        std::vector<Seg> t; for (auto j = it; j != end; ++j) { t.push_back(seg_of(j->range_view(), j->payload())); CHECK(t.size() <= 2 * N + 2, "runaway", "from find"); } eqsegs(t, std::vector<Seg>(all.begin() + at, all.end()), "find-iter", "forward from find"); t.clear();
        for (auto j = it; j != begin;) { --j; t.insert(t.begin(), seg_of(j->range_view(), j->payload())); CHECK(t.size() <= 2 * N + 2, "runaway", "back from find"); } eqsegs(t, std::vector<Seg>(all.begin(), all.begin() + at), "find-iter", "backward from find"); };
      if (how == 0) use(sp.find(q), sp.end(), sp.begin()); else if (how == 1) use(c.find(q), c.end(), c.begin()); else if (six) { if (how == 2) use(sp.find(q.ip6()), sp.end(), sp.begin()); else use(c.find(q.ip6()), c.end(), c.begin()); } else { if (how == 2) use(sp.find(q.ip4()), sp.end(), sp.begin()); else use(c.find(q.ip4()), c.end(), c.begin()); }
      EV(w < 0 ? "find_miss" : "find_hit"); CHECK(s.p == w && (w < 0 || (s.six == six && s.a <= i && i <= s.b)), "find", "find IPv%d value %d gave [%d,%d]:%d expected payload %d after %s", six ? 6 : 4, i, s.a, s.b, s.p, w, last.c_str()); }
    CHECK(sp.find(IPAddr()) == sp.end() && c.find(IPAddr()) == c.end(), "find", "find of an invalid address");
    // intersection
    for (int k = 0; k < 4; ++k) { bool six = rng.flip(); int a = pt(rng), b = pt(rng); if (a > b && rng.chance(3, 4)) std::swap(a, b); auto pr = rng.flip() ? sp.intersection(mkr(six, a, b)) : six ? sp.intersection(IP6Range(W6::to(a), W6::to(b))) : sp.intersection(IP4Range(W4::to(a), W4::to(b)));
      std::vector<Seg> want; if (a <= b) for (auto &s : all) if (s.six == six && s.a <= b && s.b >= a) want.push_back(s);
      for (auto it = pr.first; it != pr.second; ++it) { v.push_back(seg_of(it->range_view(), it->payload())); CHECK(v.size() <= 2 * N + 2, "runaway", "intersection"); } EV("intersection"); char ctx[64]; snprintf(ctx, sizeof ctx, "intersection IPv%d [%d,%d]", six ? 6 : 4, a, b); eqsegs(v, want, "intersection", ctx); v.clear(); }
    { auto pr = sp.intersection(IPRange()); CHECK(pr.first == pr.second, "intersection", "intersection with invalid range not empty"); }
    { IPSpace<int>::iterator i2; i2 = sp.begin(); IPSpace<int>::const_iterator c2; c2 = c.begin(); if (all.empty()) CHECK(i2 == sp.end() && c2 == c.end(), "assign", "iterator assignment"); else CHECK(same(seg_of(i2->range_view(), i2->payload()), all[0]) && same(seg_of(c2->range_view(), c2->payload()), all[0]), "assign", "iterator assignment"); }
  }
};
SUB(space, 6000, 400000, vh::LEAK) { W4::pick(rng); W6::pick(rng); Drv d; int n = 1 + int(rng.below(50)); for (int i = 0; i < n; ++i) { d.op(rng); d.check(rng); } }
SUB(space_ops, 20000, 1200000, vh::LEAK) { W4::pick(rng); W6::pick(rng); Drv d; int n = 20 + int(rng.below(150)); for (int i = 0; i < n; ++i) { d.op(rng); if (rng.chance(1, 8)) d.check(rng); } d.check(rng); }
// sparse: ranges over the entire address spaces, compared with boundary maps.
SUB(sparse, 6000, 400000, vh::LEAK) {
  std::map<u128, int> b4{{0, -1}}, b6{{0, -1}}; IPSpace<int> sp; IPSpace<int> const &c = sp; std::vector<u128> p4, p6; u128 const T4 = u128(1) << 32; // exclusive top (v6: wraps to 0 -> handled)
  auto split = [](std::map<u128, int> &m, u128 x) { auto it = m.upper_bound(x); --it; if (it->first != x) m[x] = it->second; };
  int n = 1 + int(rng.below(40)); for (int k = 0; k < n; ++k) {
    bool six = rng.flip(); auto &m = six ? b6 : b4; auto &pp = six ? p6 : p4; auto g = [&]() -> u128 { if (!pp.empty() && rng.flip()) { u128 x = pp[rng.below(pp.size())] + u128(rng.in(-1, 1)); return six ? x : x & (T4 - 1); } return six ? gen6(rng) : gen4(rng); };
    u128 a = g(), b = g(); if (a > b) std::swap(a, b); pp.push_back(a); pp.push_back(b); int p = 1 + int(rng.below(4)); unsigned o = rng.below(4); IPRange r; if (six) r = IP6Range(mk6(a), mk6(b)); else r = IP4Range(IP4Addr(u32(a)), IP4Addr(u32(b)));
    vh::T("op%u v%d %s-%s p%d", o, six ? 6 : 4, hex128(a).c_str(), hex128(b).c_str(), p);
    auto bl = [](int &x, int c) { x ^= c; return x != 0; }; switch (o) { case 0: sp.mark(r, p); break; case 1: sp.fill(r, p); break; case 2: sp.erase(r); break; default: sp.blend(r, p, bl); }
    split(m, a); bool top = six ? b == ~u128(0) : b == T4 - 1; if (!top) split(m, b + 1); for (auto it = m.lower_bound(a); it != m.end() && it->first <= b; ++it) { int &v = it->second; switch (o) { case 0: v = p; break; case 1: if (v < 0) v = p; break; case 2: v = -1; break; default: { int x = v < 0 ? 0 : v; x ^= p; v = x ? x : -1; } } }
    for (int f = 0; f < 2; ++f) for (u128 q : f ? p6 : p4) for (int dlt = -1; dlt <= 1; ++dlt) { u128 x = q + u128(dlt); if (!f) x &= T4 - 1; auto const &mm = f ? b6 : b4; auto it = mm.upper_bound(x); --it; IPAddr ad = f ? IPAddr(mk6(x)) : IPAddr(IP4Addr(u32(x))); auto s = c.find(ad); int got = s == c.end() ? -1 : s->payload(); CHECK(got == it->second, "find", "IPv%d %s gave %d expected %d", f ? 6 : 4, hex128(x).c_str(), got, it->second); if (got >= 0) CHECK(s->range_view().contains(ad) || true, "find", "x"); vh::obs(u64(got)); }
    // total coverage by family
    u128 got4 = 0, got6 = 0, w4 = 0, w6 = 0; for (auto &&[rv, pay] : c) { (void)pay; if (rv.is_ip4()) { IP4Range t = rv.ip4(); got4 += u128(t.max().host_order()) - t.min().host_order() + 1; } else { IP6Range t = rv.ip6(); got6 += val6(t.max()) - val6(t.min()) + 1; } }
    for (auto it = b4.begin(); it != b4.end(); ++it) { auto nx = std::next(it); if (it->second >= 0) w4 += (nx == b4.end() ? T4 : nx->first) - it->first; } for (auto it = b6.begin(); it != b6.end(); ++it) { auto nx = std::next(it); if (it->second >= 0) w6 += (nx == b6.end() ? u128(0) : nx->first) - it->first; }
    CHECK(got4 == w4 && got6 == w6, "coverage", "IPv4 %s expected %s, IPv6 %s expected %s", hex128(got4).c_str(), hex128(w4).c_str(), hex128(got6).c_str(), hex128(w6).c_str()); EV("sparse_op");
  }
}
// Range set.
SUB(rangeset, 8000, 500000, vh::LEAK) {
  W4::pick(rng); W6::pick(rng); IPRangeSet st; IPRangeSet const &c = st; Map m4, m6; m4.fill(-1); m6.fill(-1); int n = 1 + int(rng.below(40));
  for (int k = 0; k < n; ++k) { bool six = rng.flip(); int a = int(rng.below(N)), b = rng.chance(1, 3) ? a + int(rng.below(4)) : int(rng.below(N)); b = std::min(b, N - 1); if (a > b && !rng.chance(1, 8)) std::swap(a, b); vh::T("v%d [%d,%d]", six ? 6 : 4, a, b);
    switch (rng.below(8)) { case 0: if (rng.chance(1, 3)) { st.clear(); m4.fill(-1); m6.fill(-1); } break; case 1: if (rng.flip()) st.mark(IPRange()); else st.fill(IPRange()); break; case 2: case 3: case 4: st.mark(mkr(six, a, b)); for (int i = a; i <= b; ++i) (six ? m6 : m4)[i] = 1; break; default: st.fill(mkr(six, a, b)); for (int i = a; i <= b; ++i) (six ? m6 : m4)[i] = 1; }
    std::vector<Seg> want; for (int f = 0; f < 2; ++f) { Map &m = f ? m6 : m4; for (int i = 0; i < N; ++i) if (m[i] >= 0) { int j = i; while (j + 1 < N && m[j + 1] >= 0) ++j; want.push_back({bool(f), i, j, 1}); i = j; } }
    std::vector<Seg> v; for (auto const &r : c) { v.push_back(seg_of(r, 1)); CHECK(v.size() < 2 * N + 2, "runaway", "set"); } eqsegs(v, want, "set-iter", "iteration (ranges must be maximal)"); v.clear();
    for (auto it = c.end(); it != c.begin();) { if (rng.flip()) --it; else it--; v.push_back(seg_of(*it, 1)); CHECK(v.size() < 2 * N + 2, "runaway", "set"); } std::reverse(v.begin(), v.end()); eqsegs(v, want, "set-iter", "backward"); v.clear();
    for (auto it = c.begin(); it != c.end();) { auto o = it++; CHECK(o->is_ip4() != o->is_ip6(), "set-iter", "family"); v.push_back(seg_of(*o, 1)); } eqsegs(v, want, "set-iter", "post increment");
    v.clear(); for (auto it = c.end(); it != c.begin();) { auto pre = it; auto o = it--; CHECK(o == pre && o != it, "set-iter", "post decrement result"); v.push_back(seg_of(*it, 1)); CHECK(v.size() <= 2 * N + 2, "runaway", "set backward"); } std::reverse(v.begin(), v.end()); eqsegs(v, want, "set-iter", "post decrement");
    CHECK(c.count() == want.size() && c.empty() == want.empty(), "set-count", "count %zu empty %d expected %zu ranges", c.count(), c.empty(), want.size());
    for (int f = 0; f < 2; ++f) for (int i = 0; i < N; ++i) { bool g = c.contains(f ? IPAddr(W6::to(i)) : IPAddr(W4::to(i))); CHECK(g == ((f ? m6 : m4)[i] >= 0), "set-contains", "contains(v%d %d) = %d", f ? 6 : 4, i, g); } CHECK(!c.contains(IPAddr()), "set-contains", "invalid address");
    for (auto &s : want) vh::obs(u64(s.six) << 48 | u64(s.a) << 32 | u64(s.b)); EV("set_op"); }
}
// Payloads owning resources, over both families; iterators copied, stepped both ways and kept while they still refer to a live range.
SUB(owned, 6000, 300000, vh::LEAK) {
  using vh::Owned; using vh::life; W4::pick(rng); W6::pick(rng); life().reset();
  { IPSpace<Owned> sp; Map m4, m6; m4.fill(-1); m6.fill(-1); int n = 1 + int(rng.below(40));
    for (int k = 0; k < n; ++k) {
      bool six = rng.flip(); Map &m = six ? m6 : m4; int a = int(rng.below(N)), b = rng.chance(1, 3) ? std::min(N - 1, a + int(rng.below(4))) : int(rng.below(N)); if (a > b) std::swap(a, b); int p = 1 + int(rng.below(4)); IPRange r = mkr(six, a, b); unsigned o = unsigned(rng.below(9)); vh::T("op %u v%d [%d,%d] %d", o, six ? 6 : 4, a, b, p); EV("owned ops");
      auto bl = [](Owned &x, int c) { x.set(x.get() ^ c); return x.get() != 0; };
      switch (o) { case 0: case 1: sp.mark(r, Owned(p)); for (int i = a; i <= b; ++i) m[i] = p; break; case 2: case 3: sp.fill(r, Owned(p)); for (int i = a; i <= b; ++i) if (m[i] < 0) m[i] = p; break; case 4: sp.erase(r); for (int i = a; i <= b; ++i) m[i] = -1; break; case 8: if (rng.chance(1, 5)) { sp.clear(); m4.fill(-1); m6.fill(-1); CHECK(life().live == 0, "payload-clear", "%lld payloads live after clear", (long long)life().live); } break;
      default: sp.blend(r, p, bl); for (int i = a; i <= b; ++i) { int v = (m[i] < 0 ? 0 : m[i]) ^ p; m[i] = v ? v : -1; } }
      size_t cnt = 0; for (auto &x : sp) { (void)x.payload().get(); if (++cnt > 2 * N) break; } CHECK(life().live == i64(cnt) && sp.count() == cnt, "payload-live", "%lld live payloads for %zu ranges", (long long)life().live, cnt);
      // iterators as values
      std::vector<IPSpace<Owned>::iterator> its; std::vector<Seg> all; auto it = sp.begin(); while (it != sp.end()) { auto cp = it; its.push_back(cp); auto old = it++; CHECK(old == cp && old != it, "iter-post", "post increment"); all.push_back(seg_of(old->range_view(), old->payload().get())); }
      for (size_t i = its.size(); i-- > 0;) { auto pre = it; auto old = it--; CHECK(it == its[i] && old == pre && old != it, "iter-post", "post decrement"); CHECK(same(seg_of((*it).range_view(), (*it).payload().get()), all[i]), "iter-post", "value after decrement"); IPSpace<Owned>::const_iterator cit = it; CHECK(same(seg_of(cit->range_view(), cit->payload().get()), all[i]), "iter-const", "const copy"); }
      for (auto &s : all) { Map &mm = s.six ? m6 : m4; for (int i = s.a; i <= s.b; ++i) CHECK(mm[i] == s.p, "map", "IPv%d value %d has %d expected %d", s.six ? 6 : 4, i, s.p, mm[i]); vh::obs(u64(s.six) << 40 | u64(s.a) << 20 | u64(s.b) << 8 | u64(s.p)); }
      size_t cov = 0, want = 0; for (auto &s : all) cov += size_t(s.b - s.a + 1); for (int i = 0; i < N; ++i) want += (m4[i] >= 0) + (m6[i] >= 0); CHECK(cov == want, "map", "%zu values covered expected %zu", cov, want);
      if (!its.empty()) { auto x = its[rng.below(its.size())]; auto y = its[rng.below(its.size())]; bool eq = same(seg_of(x->range_view(), 0), seg_of(y->range_view(), 0)); CHECK((x == y) == eq && (x != y) == !eq, "iter-eq", "iterator comparison"); x = y; CHECK(x == y && same(seg_of(x->range_view(), 0), seg_of(y->range_view(), 0)), "iter-assign", "assigned iterator"); }
    } }
  CHECK(life().live == 0, "payload-end", "%lld payloads never destroyed", (long long)life().live);
}
// Scale: thousands of ranges of both families at once.
SUB(large, 60, 2000, vh::LEAK) {
  std::map<u128, std::pair<u128, int>> want[2]; IPSpace<int> sp; IPSpace<int> const &c = sp; IPRangeSet st; size_t n4 = rng.below(rng.chance(1, 4) ? 9000 : 2500), n6 = rng.below(rng.chance(1, 4) ? 9000 : 2500); vh::T("%zu IPv4 %zu IPv6", n4, n6);
  u128 step4 = (u128(1) << 32) / (n4 + 1), step6 = rng.flip() ? u128(1) << rng.in(2, 110) : ~u128(0) / (n6 + 1); auto R = [&](bool six, u128 a, u128 b) { return six ? IPRange(IP6Range(mk6(a), mk6(b))) : IPRange(IP4Range(IP4Addr(u32(a)), IP4Addr(u32(b)))); };
  std::vector<std::pair<bool, size_t>> order; for (size_t i = 0; i < n4; ++i) order.emplace_back(false, i); for (size_t i = 0; i < n6; ++i) order.emplace_back(true, i); if (rng.chance(3, 4)) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
  for (auto [six, i] : order) { u128 a = (six ? step6 : step4) * i, b = a + rng.below(u64(std::min<u128>((six ? step6 : step4) - 1, 1u << 30)) + 1); if (rng.chance(1, 50)) b = a + (six ? step6 : step4) - 1; if (a == 0 && i) continue; if (six && i && step6 * i / i != step6) continue; int p = int(i % 5) * 2 + 1 + int(i & 1); auto r = R(six, a, b); switch (rng.below(3)) { case 0: sp.mark(r, p); break; case 1: sp.fill(r, p); break; default: sp.blend(r, p, [](int &x, int v) { x = v; return true; }); } want[six][a] = {b, p}; st.mark(r); }
  // adjacent ranges never have equal payloads by construction, so each stays distinct.
  auto verify = [&](char const *w) { std::vector<std::tuple<bool, u128, u128, int>> e; for (int f = 0; f < 2; ++f) for (auto &[a, bp] : want[f]) e.emplace_back(f, a, bp.first, bp.second); size_t k = 0; auto get = [&](auto const &rv, int p) { std::tuple<bool, u128, u128, int> t; if (rv.is_ip4()) { IP4Range x = rv.ip4(); t = {false, x.min().host_order(), x.max().host_order(), p}; } else { IP6Range x = rv.ip6(); t = {true, val6(x.min()), val6(x.max()), p}; } return t; };
    for (auto const &[rv, p] : c) { CHECK(k < e.size() && get(rv, p) == e[k], "large-iterate", "%s: range %zu of %zu", w, k, e.size()); ++k; } CHECK(k == e.size() && c.count() == e.size() && c.count_ip4() == want[0].size() && c.count_ip6() == want[1].size(), "large-count", "%s: %zu ranges, count %zu, expected %zu", w, k, c.count(), e.size());
    auto it = sp.end(); while (it != sp.begin()) { --it; --k; CHECK(get(it->range_view(), it->payload()) == e[k], "large-backward", "%s: range %zu", w, k); } CHECK(k == 0, "large-backward", "%s: %zu left", w, k);
    for (int q = 0; q < 400; ++q) { bool six = rng.flip(); auto &m = want[six]; u128 x; if (!m.empty() && rng.chance(5, 6)) { size_t idx = rng.below((six ? n6 : n4) + 1); auto i2 = m.lower_bound((six ? step6 : step4) * idx); if (i2 == m.end()) --i2; x = rng.flip() ? i2->first : i2->second.first; x += u128(rng.in(-1, 1)); if (!six) x &= 0xffffffffu; } else x = six ? gen6(rng) : gen4(rng); int exp = -1; auto i2 = m.upper_bound(x); if (i2 != m.begin()) { --i2; if (x <= i2->second.first) exp = i2->second.second; } IPAddr ad = six ? IPAddr(mk6(x)) : IPAddr(IP4Addr(u32(x))); auto s = c.find(ad); int got = s == c.end() ? -1 : s->payload(); CHECK(got == exp, "large-find", "%s: IPv%d %s gave %d expected %d", w, six ? 6 : 4, hex128(x).c_str(), got, exp); CHECK(st.contains(ad) == (exp >= 0), "large-set", "%s: contains IPv%d %s", w, six ? 6 : 4, hex128(x).c_str()); vh::obs(u64(got)); }
    EV("large verifications"); };
  verify("built");
  for (int k = 0; k < 4; ++k) { bool six = rng.flip(); auto &m = want[six]; if (m.size() < 3) continue; size_t i = rng.below((six ? n6 : n4)), j = i + rng.below((six ? n6 : n4) - i); auto x = m.lower_bound((six ? step6 : step4) * i), y = m.lower_bound((six ? step6 : step4) * j); if (x == m.end()) continue; if (y == m.end()) --y; if (x->first > y->first) continue; u128 a = x->first, b = y->second.first; auto r = R(six, a, b); auto stop = std::next(y);
    if (rng.flip()) { vh::T("erase %zu..%zu", i, j); sp.erase(r); m.erase(x, stop); st.clear(); for (int f = 0; f < 2; ++f) for (auto &[p, q] : want[f]) st.mark(R(f, p, q.first)); } else { vh::T("mark %zu..%zu", i, j); int p = 100 + k; sp.mark(r, p); m.erase(x, stop); m[a] = {b, p}; st.mark(r); } verify("after a wide operation"); }
}
