#include "ip.h"
// N03: networks, ranges, masks. Family traits let one oracle serve both families (values as 128 bit integers).
struct F4 { static constexpr int W = 32; using Addr = IP4Addr; using Range = IP4Range; using Net = IP4Net; static Addr mk(u128 v) { return IP4Addr{in_addr_t(v)}; } static u128 val(Addr const &a) { return val4(a); } static u128 gen(Rng &r) { return gen4(r); } static string txt(u128 v) { return txt4(u32(v)); } static IPRange any(Range const &r) { return IPRange(r); } };
struct F6 { static constexpr int W = 128; using Addr = IP6Addr; using Range = IP6Range; using Net = IP6Net; static Addr mk(u128 v) { return mk6(v); } static u128 val(Addr const &a) { return val6(a); } static u128 gen(Rng &r) { return gen6(r); } static string txt(u128 v) { return txt6(v); } };
template <class F> constexpr u128 TOP = F::W == 128 ? ~u128(0) : (u128(1) << (F::W % 128)) - 1;
template <class F> static u128 low(int bits) { return bits >= F::W ? TOP<F> : bits <= 0 ? 0 : (u128(1) << bits) - 1; }
struct NW { u128 a; int w; };
// Greedy minimal decomposition.
template <class F> static std::vector<NW> ref_nets(u128 a, u128 b) { std::vector<NW> r; for (;;) { int k = 0; while (k < F::W && !(a & low<F>(k + 1)) && (a | low<F>(k + 1)) <= b) ++k; r.push_back({a, F::W - k}); u128 e = a | low<F>(k); if (e >= b) break; a = e + 1; } return r; }
template <class F> static void same_nets(std::vector<NW> const &got, std::vector<NW> const &want, u128 a, u128 b, char const *how) { CHECK(got.size() == want.size(), "nets", "%s: %s-%s gave %zu networks, minimal is %zu", how, F::txt(a).c_str(), F::txt(b).c_str(), got.size(), want.size()); for (size_t i = 0; i < got.size(); ++i) CHECK(got[i].a == want[i].a && got[i].w == want[i].w, "nets", "%s: %s-%s network %zu is %s/%d expected %s/%d", how, F::txt(a).c_str(), F::txt(b).c_str(), i, F::txt(got[i].a).c_str(), got[i].w, F::txt(want[i].a).c_str(), want[i].w); }
template <class F> static u128 aval(IPAddr const &a) { if constexpr (F::W == 32) { CHECK(a.is_ip4(), "family", "expected IPv4"); return val4(a.ip4()); } else { CHECK(a.is_ip6(), "family", "expected IPv6"); return val6(a.ip6()); } }
template <class F> static void nets(u128 a, u128 b) {
  using Range = typename F::Range; Range r{F::mk(a), F::mk(b)}; auto want = ref_nets<F>(a, b); vh::T("%s-%s: %zu networks", F::txt(a).c_str(), F::txt(b).c_str(), want.size()); size_t cap = want.size() + 3;
  { std::vector<NW> g; for (auto const &net : r.networks()) { g.push_back({F::val(net.min()), net.mask().width()}); auto [addr, mask] = net; CHECK(F::val(addr) == g.back().a && mask.width() == g.back().w, "net-tuple", "structured binding"); CHECK(F::val(net.max()) == (g.back().a | low<F>(F::W - g.back().w)), "net-max", "%s/%d", F::txt(g.back().a).c_str(), g.back().w); if (g.size() > cap) break; } same_nets<F>(g, want, a, b, "range for"); }
  { std::vector<NW> g; auto src = r.networks(); while (!src.empty() && g.size() <= cap) { g.push_back({F::val(src->addr()), src->mask().width()}); auto prev = src++; CHECK(F::val((*prev).min()) == g.back().a, "net-post", "post increment"); } same_nets<F>(g, want, a, b, "post increment"); CHECK(src == r.networks().end() && !(src != src.end()), "nets", "end"); }
  IPRange ar{r}; { std::vector<NW> g; for (auto const &net : ar.networks()) { g.push_back({aval<F>(net.min()), net.mask().width()}); CHECK(aval<F>(net.max()) == (g.back().a | low<F>(F::W - g.back().w)), "net-max", "IPNet"); if (g.size() > cap) break; } same_nets<F>(g, want, a, b, "IPRange"); }
  { std::vector<NW> g; swoc::IPRangeView rv; rv.assign(r); auto src = rv.networks(); for (auto it = src.begin(), e = src.end(); it != e && g.size() <= cap;) { auto p = it++; g.push_back({aval<F>(p.addr()), p.mask().width()}); } same_nets<F>(g, want, a, b, "IPRangeView"); }
  auto m = r.network_mask(); auto m2 = ar.network_mask(); CHECK(m.is_valid() == (want.size() == 1) && m2.is_valid() == m.is_valid(), "network_mask", "%s-%s mask valid %d with %zu networks", F::txt(a).c_str(), F::txt(b).c_str(), m.is_valid(), want.size()); if (m.is_valid()) CHECK(m.width() == want[0].w && m2 == m, "network_mask", "%s-%s mask %d expected %d", F::txt(a).c_str(), F::txt(b).c_str(), m.width(), want[0].w);
  vh::obs(want.size()); vh::obs(u64(a ^ a >> 64)); vh::obs(u64(b ^ b >> 64)); EV("decomposed"); for (size_t i = 0; i < want.size(); ++i) EV("networks");
}
template <class F> static void gen_pair(Rng &rng, u128 &a, u128 &b) { a = F::gen(rng); switch (rng.below(6)) { case 0: b = a; break; case 1: { int k = int(rng.below(F::W + 1)); a &= ~low<F>(k); b = a | low<F>(k); if (rng.chance(1, 3)) { if (rng.flip()) { if (b < TOP<F>) ++b; else if (b > a) --b; } else if (a > 0) --a; } break; } case 2: b = a + rng.below(1000); if (b < a || b > TOP<F>) b = TOP<F>; break; case 3: a = rng.below(4); b = TOP<F> - rng.below(4); break; default: b = F::gen(rng); } if (a > b) std::swap(a, b); }
SUB(nets_ip4, 25000, 1500000, 0) { u128 a, b; gen_pair<F4>(rng, a, b); nets<F4>(a, b); }
SUB(nets_ip6, 12000, 700000, 0) { u128 a, b; gen_pair<F6>(rng, a, b); nets<F6>(a, b); }
SUB(nets_small, 33 * 32 / 2 * 6, 65 * 64 / 2 * 6, vh::EXHAUSTIVE) { int N = vh::thorough() ? 64 : 32; u64 k = vh::S().idx; int where = int(k % 6); k /= 6; int a = 0; while (k >= u64(N - a)) { k -= u64(N - a); ++a; } int b = a + int(k); switch (where) { case 0: nets<F4>(a, b); break; case 1: nets<F4>(TOP<F4> - b, TOP<F4> - a); break; case 2: nets<F6>(a, b); break; case 3: nets<F6>(TOP<F6> - b, TOP<F6> - a); break; case 4: { u128 o = (u128(1) << 64) - N / 2; nets<F6>(o + a, o + b); break; } default: nets<F4>(0x80000000u - N / 2 + a, 0x80000000u - N / 2 + b); } }
// Every network width on generated addresses: assign from address and mask, membership, single network mask.
template <class F> static void net_obj(Rng &rng, u128 x, int w) {
  using Net = typename F::Net; using Range = typename F::Range; u128 lo = x & ~low<F>(F::W - w), hi = x | low<F>(F::W - w); IPMask m{u8(w)}; Net n{F::mk(x), m}; CHECK(!n.empty() && F::val(n.min()) == lo && F::val(n.max()) == hi && n.mask() == m, "net", "%s/%d is %s-%s/%d", F::txt(x).c_str(), w, F::txt(F::val(n.min())).c_str(), F::txt(F::val(n.max())).c_str(), n.mask().width());
  Range r{F::mk(0), F::mk(1)}; r.assign(F::mk(x), m); if constexpr (F::W == 32) CHECK(IP4Range(F::mk(x), m) == r, "range-mask", "construct"); CHECK(F::val(r.min()) == lo && F::val(r.max()) == hi && n.as_range() == r, "range-mask", "%s/%d as range is %s-%s", F::txt(x).c_str(), w, F::txt(F::val(r.min())).c_str(), F::txt(F::val(r.max())).c_str()); CHECK(r.network_mask() == m, "network_mask", "%s/%d reported %d", F::txt(x).c_str(), w, r.network_mask().width());
  Net n2; CHECK(n2.empty(), "net", "default network is not empty"); n2.assign(F::mk(lo), m); CHECK(n2 == n && !(n2 != n), "net-eq", "same network"); IPNet g{IPAddr(F::mk(x)), m}; CHECK(g == n && n == g && g.width() == w && g.min() == F::mk(lo) && g.max() == F::mk(hi) && !g.empty() && g.is_ip4() == (F::W == 32) && g.is_ip6() == (F::W == 128), "net-any", "%s/%d", F::txt(x).c_str(), w); CHECK(g.as_range() == IPRange(r), "net-any", "as_range"); if constexpr (F::W == 32) CHECK(g.ip4() == n, "net-any", "ip4()"); else CHECK(g.ip6() == n, "net-any", "ip6()");
  u128 y = F::gen(rng); int w2 = rng.flip() ? w : int(rng.below(F::W + 1)); if (rng.flip()) y = x ^ (u128(rng.below(4)) << (rng.below(F::W))); y &= TOP<F>; Net o{F::mk(y), IPMask{u8(w2)}}; bool eq = w == w2 && ((y ^ x) & ~low<F>(F::W - w) & TOP<F>) == 0; CHECK((o == n) == eq && (o != n) == !eq, "net-eq", "%s/%d vs %s/%d", F::txt(x).c_str(), w, F::txt(y).c_str(), w2); IPNet og{IPAddr(F::mk(y)), IPMask{u8(w2)}}; CHECK((og == g) == eq && (og != g) == !eq && (og == n) == eq, "net-eq", "IPNet");
  CHECK(r.contains(F::mk(y)) == (y >= lo && y <= hi), "contains", "%s in %s/%d", F::txt(y).c_str(), F::txt(x).c_str(), w);
  // text
  string t = show(n), want = F::txt(lo) + "/" + std::to_string(w); vh::eq_text(t, want, "net-print", "Net"); vh::eq_text(show(g), want, "net-print", "IPNet"); vh::HText h(t); Net p; CHECK(p.load(TextView(h.view())) && p == n, "net-round", "%s", t.c_str()); IPNet pg; CHECK(pg.load(TextView(h.view())) && pg == g && pg.family() == g.family(), "net-round", "IPNet %s", t.c_str());
  string mt = F::txt(x) + "/" + F::txt(~low<F>(F::W - w) & TOP<F>); vh::HText mh(mt); CHECK(p.load(TextView(mh.view())) && p == n, "net-mask-address", "%s", mt.c_str()); CHECK(pg.load(TextView(mh.view())) && pg == g, "net-mask-address", "IPNet %s", mt.c_str()); CHECK(IPNet(TextView(mh.view())) == g && Net(TextView(h.view())) == n, "net-round", "construct"); n2.clear(); CHECK(n2.empty(), "net", "clear");
  vh::obs(t); EV("net");
}
SUB(net_ip4, 33 * 1500, 33 * 60000, 0) { net_obj<F4>(rng, gen4(rng), int(vh::S().idx % 33)); }
SUB(net_ip6, 129 * 400, 129 * 15000, 0) { net_obj<F6>(rng, gen6(rng), int(vh::S().idx % 129)); }
// ---- ranges as text
template <class F> static void range_text(Rng &rng) {
  using Range = typename F::Range; u128 a, b; gen_pair<F>(rng, a, b); Range r{F::mk(a), F::mk(b)}; IPRange g{r}; string t = show(r); vh::eq_text(t, F::txt(a) + "-" + F::txt(b), "range-print", "range"); vh::eq_text(show(g), t, "range-print", "IPRange"); vh::HText h(t); Range p; CHECK(p.load(h) && p == r, "range-round", "%s", t.c_str()); IPRange pg; CHECK(pg.load(h) && pg == g, "range-round", "IPRange %s", t.c_str()); swoc::IPRangeView v; v.assign(r); vh::eq_text(show(v), t, "range-print", "IPRangeView");
  auto nets = ref_nets<F>(a, b); string c = a == b ? F::txt(a) : nets.size() == 1 ? F::txt(a) + "/" + std::to_string(nets[0].w) : t; vh::eq_text(show(r, "{::c}"), c, "range-print-c", "compact"); vh::eq_text(show(g, "{::c}"), c, "range-print-c", "compact IPRange"); vh::HText ch(c); CHECK(p.load(ch) && p == r, "range-round", "%s", c.c_str()); CHECK(pg.load(ch) && pg == g, "range-round", "IPRange %s", c.c_str()); CHECK(Range(string_view(ch)) == r && IPRange(string_view(h)) == g, "range-round", "construct");
  u128 x = rng.flip() ? F::gen(rng) : rng.pick({a, b, a ? a - 1 : a, b < TOP<F> ? b + 1 : b}); bool in = x >= a && x <= b; CHECK(g.contains(IPAddr(F::mk(x))) == in && g.contains(F::mk(x)) == in && v.contains(F::mk(x)) == in && v.contains(IPAddr(F::mk(x))) == in, "contains", "%s in %s", F::txt(x).c_str(), t.c_str());
  IPAddr other = F::W == 32 ? IPAddr(mk6(x)) : IPAddr(IP4Addr{in_addr_t(x)}); CHECK(!g.contains(other) && !v.contains(other) && !g.contains(IPAddr()) && !v.contains(IPAddr()), "contains", "other family in %s", t.c_str()); if constexpr (F::W == 32) CHECK(!g.contains(mk6(x)) && !v.contains(mk6(x)), "contains", "IPv6 in IPv4 range"); else CHECK(!g.contains(IP4Addr{in_addr_t(x)}) && !v.contains(IP4Addr{in_addr_t(x)}), "contains", "IPv4 in IPv6 range");
  CHECK(g.min() == F::mk(a) && g.max() == F::mk(b) && !g.empty() && v.min() == g.min() && v.max() == g.max() && !v.empty() && v.valid() && g.is_ip4() == (F::W == 32) && g.is_ip6() == (F::W == 128) && v.is_ip4() == g.is_ip4() && v.is_ip6() == g.is_ip6(), "range-any", "%s", t.c_str()); CHECK(v == g && IPRange(v) == g && IPRange(g.min(), g.max()) == g && IPRange(F::mk(a), F::mk(b)) == g, "range-any", "%s conversions", t.c_str()); if (a == b) CHECK(IPRange(F::mk(a)) == g && IPRange(IPAddr(F::mk(a))) == g, "range-any", "singleton"); IPRange mixed{g.min(), other}; CHECK(mixed.empty() && !mixed.is_ip4() && !mixed.is_ip6(), "range-mixed", "mixed family bounds"); IPRange as; as = v; CHECK(as == g && !(as != g), "range-any", "assign from view"); as.clear(); CHECK(as.empty() && as != g && show(as) == "*-*", "range-clear", "%s", t.c_str()); Range e; CHECK(e.empty() && show(e) == "*-*" && !e.network_mask().is_valid() && e.networks().empty() && !(e.networks().begin() != e.networks().end()), "range-empty", "empty range");
  if (b > a) { IPRange s{F::mk(a), F::mk(b - 1)}; CHECK(s != g && !(s == g) && !(v == s), "range-eq", "%s vs shorter", t.c_str()); } vh::obs(t); vh::obs(c); EV("range_text");
}
SUB(range_text4, 30000, 1500000, 0) { range_text<F4>(rng); }
SUB(range_text6, 25000, 1200000, 0) { range_text<F6>(rng); }
// ---- malformed texts, against a reference parser
struct PR { Verdict ok; u128 a, b; bool order; };
static Verdict both(Verdict a, Verdict b) { return a == NO || b == NO ? NO : a == ANY || b == ANY ? ANY : YES; }
template <class F> static Verdict ref_addr(string_view s, u128 &v) { if constexpr (F::W == 32) { auto r = ref4(s); v = r.v; return r.ok; } else { auto r = ref6(s); v = r.v; return r.ok; } }
static Verdict ref_width(string_view s, int W, int &w) { string_view t = trim_(s); u64 v = 0; bool odd = t.size() != s.size(); if (!num_(t, v, odd) || v > u64(W)) return NO; w = int(v); if (t.size() > 1 && t[0] == '0') odd = true; return odd ? ANY : YES; }
template <class F> static PR ref_range(string_view s) {
  PR bad{NO, 0, 0, true}; size_t k = s.find_first_of("/-"); if (k == s.npos) { u128 v; Verdict o = ref_addr<F>(s, v); return {o, v, v, true}; } string_view l = s.substr(0, k), r = s.substr(k + 1); u128 a, b; Verdict o = ref_addr<F>(l, a); if (o == NO) return bad;
  if (s[k] == '-') { Verdict q = both(o, ref_addr<F>(r, b)); if (q != NO && a > b) return {ANY, a, b, false}; return {q, a, b, true}; } int w = 0; Verdict q = both(o, ref_width(r, F::W, w)); if (q == NO) { Verdict m = ref_addr<F>(r, b); return {both(o, m) == NO ? NO : ANY, 0, 0, false}; } return {q, a & ~low<F>(F::W - w), a | low<F>(F::W - w), true};
}
template <class F> static PR ref_net(string_view s) { // b: width
  PR bad{NO, 0, 0, true}; size_t k = s.rfind('/'); if (k == s.npos) return bad; u128 a; Verdict o = ref_addr<F>(s.substr(0, k), a); if (o == NO) return bad; string_view r = s.substr(k + 1); int w = 0; Verdict q = ref_width(r, F::W, w);
  if (q == NO) { u128 m; Verdict mo = ref_addr<F>(r, m); if (mo == NO) return bad; for (w = 0; w <= F::W; ++w) if (m == (~low<F>(F::W - w) & TOP<F>)) break; if (w > F::W) return bad; u64 x; bool odd = false; q = num_(trim_(r), x, odd) ? ANY : mo; }
  return {both(o, q), a & ~low<F>(F::W - w), u128(w), true};
}
template <class F> static void parse_range(string_view raw) {
  using Range = typename F::Range; vh::HText h(raw); auto w = ref_range<F>(raw); Range r{F::mk(1), F::mk(2)}; bool ok = r.load(h); EV(ok ? "range_accept" : "range_reject"); if (w.ok == YES) CHECK(ok, "range-valid", "%s rejected", vh::esc(raw).c_str()); if (w.ok == NO) CHECK(!ok, "range-invalid", "%s accepted as %s", vh::esc(raw).c_str(), show(r).c_str()); if (ok && w.order) CHECK(F::val(r.min()) == w.a && F::val(r.max()) == w.b, "range-value", "%s parsed as %s", vh::esc(raw).c_str(), show(r).c_str()); if (ok && !w.order) CHECK(F::val(r.min()) <= F::val(r.max()) || r.empty(), "range-value", "%s", vh::esc(raw).c_str()); if (!ok) CHECK(r.empty(), "range-fail-state", "%s", vh::esc(raw).c_str()); vh::obs(ok); vh::obs(show(r));
}
template <class F> static void parse_net(string_view raw) {
  using Net = typename F::Net; vh::HText h(raw); auto w = ref_net<F>(raw); Net n{F::mk(9), IPMask{5}}; bool ok = n.load(TextView(h.view())); EV(ok ? "net_accept" : "net_reject"); if (w.ok == YES) CHECK(ok, "net-valid", "%s rejected", vh::esc(raw).c_str()); if (w.ok == NO) CHECK(!ok, "net-invalid", "%s accepted as %s", vh::esc(raw).c_str(), show(n).c_str()); if (ok) CHECK(F::val(n.min()) == w.a && n.mask().width() == int(w.b), "net-value", "%s parsed as %s", vh::esc(raw).c_str(), show(n).c_str()); else CHECK(n.empty(), "net-fail-state", "%s", vh::esc(raw).c_str()); vh::obs(ok); vh::obs(u64(w.a) + u64(w.b));
}
static void parse_any(string_view raw) {
  vh::HText h(raw); { auto w4 = ref_range<F4>(raw); auto w6 = ref_range<F6>(raw); IPRange r{IP4Addr{in_addr_t(5)}, IP4Addr{in_addr_t(6)}}; bool ok = r.load(h); if (w4.ok == YES) CHECK(ok && r.is_ip4(), "range-valid", "IPRange %s", vh::esc(raw).c_str()); if (w6.ok == YES) CHECK(ok && r.is_ip6(), "range-valid", "IPRange %s", vh::esc(raw).c_str()); if (w4.ok == NO && w6.ok == NO) CHECK(!ok, "range-invalid", "IPRange %s accepted as %s", vh::esc(raw).c_str(), show(r).c_str()); if (!ok) CHECK(r.empty() && !r.is_ip4() && !r.is_ip6() && r.min() == IPAddr(), "range-fail-state", "IPRange %s", vh::esc(raw).c_str()); else if (r.is_ip4()) { CHECK(w4.ok != NO, "range-invalid", "IPRange %s", vh::esc(raw).c_str()); if (w4.order) CHECK(val4(r.ip4().min()) == w4.a && val4(r.ip4().max()) == w4.b, "range-value", "IPRange %s", vh::esc(raw).c_str()); } else { CHECK(w6.ok != NO, "range-invalid", "IPRange %s", vh::esc(raw).c_str()); if (w6.order) CHECK(val6(r.ip6().min()) == w6.a && val6(r.ip6().max()) == w6.b, "range-value", "IPRange %s", vh::esc(raw).c_str()); } }
  { auto w4 = ref_net<F4>(raw); auto w6 = ref_net<F6>(raw); IPNet n{IPAddr(mk6(5)), IPMask{7}}; bool ok = n.load(TextView(h.view())); if (w4.ok == YES || w6.ok == YES) CHECK(ok, "net-valid", "IPNet %s", vh::esc(raw).c_str()); if (w4.ok == NO && w6.ok == NO) CHECK(!ok, "net-invalid", "IPNet %s accepted as %s", vh::esc(raw).c_str(), show(n).c_str()); if (!ok) CHECK(n.empty(), "net-fail-state", "IPNet %s", vh::esc(raw).c_str()); else if (n.is_ip4()) CHECK(w4.ok != NO && val4(n.ip4().min()) == w4.a && n.width() == int(w4.b), "net-value", "IPNet %s is %s", vh::esc(raw).c_str(), show(n).c_str()); else CHECK(n.is_ip6() && w6.ok != NO && val6(n.ip6().min()) == w6.a && n.width() == int(w6.b), "net-value", "IPNet %s is %s", vh::esc(raw).c_str(), show(n).c_str()); }
}
static void mask_text(string_view raw) { vh::HText h(raw); int w = 0; Verdict v = ref_width(raw, 128, w); IPMask m; bool ok = m.load(h); EV("mask_text"); if (v == YES) CHECK(ok, "mask-valid", "%s", vh::esc(raw).c_str()); if (v == NO) CHECK(!ok, "mask-invalid", "%s accepted as %d", vh::esc(raw).c_str(), m.width()); if (ok) { CHECK(m.width() == w, "mask-value", "%s is %d", vh::esc(raw).c_str(), m.width()); vh::eq_text(show(m), std::to_string(w), "mask-print", "mask"); } vh::obs(ok); }
static void parse_all(string_view t) { vh::T("%s", vh::esc(t).c_str()); parse_range<F4>(t); parse_range<F6>(t); parse_net<F4>(t); parse_net<F6>(t); parse_any(t); }
static string gen_range_text(Rng &rng) {
  bool v4 = rng.flip(); auto at = [&](bool f4) { return f4 ? (rng.flip() ? gen4_text(rng) : txt4(gen4(rng))) : (rng.flip() ? gen6_text(rng) : txt6(gen6(rng))); }; string t = at(v4);
  switch (rng.below(5)) { case 0: break; case 1: t += "-" + at(rng.chance(1, 10) ? !v4 : v4); break; case 2: { u64 w = rng.below(v4 ? 33 : 129); if (rng.chance(1, 4)) w = rng.pick<u64>({32, 33, 64, 127, 128, 129, 255, 256, 288, 300, 65536 + 24, 4294967296ull + 24, 0}); t += "/" + (rng.chance(1, 10) ? num_text(rng, w) : std::to_string(w)); break; } case 3: { int w = int(rng.below(v4 ? 33 : 129)); u128 m = v4 ? ~low<F4>(32 - w) & TOP<F4> : ~low<F6>(128 - w); if (rng.chance(1, 4)) m ^= u128(1) << rng.below(v4 ? 32 : 128); t += "/" + (v4 ? txt4(u32(m)) : txt6(m)); break; } default: t += rng.pick({"/", "-", "/-", "-/", "/0/0", "--", "/24-", "/+8", "/-1", "/ 8", "/8 ", "/08", "/x"}); }
  return t;
}
SUB(parse, 80000, 4000000, 0) { parse_all(gen_range_text(rng)); }
SUB(parse_mutated, 100000, 5000000, 0) { string t = gen_range_text(rng); mutate(rng, t, "0123456789./-:f[] x"); parse_all(t); }
SUB(parse_junk, 50000, 2000000, 0) { string t(rng.size(12), 0); string_view al = "0125.:/-ax[] "; for (auto &c : t) c = rng.chance(1, 20) ? char(rng.u()) : al[rng.below(al.size())]; parse_all(t); }
SUB(widths, 1200, 1200, vh::EXHAUSTIVE) { u64 k = vh::S().idx; string w = k < 1000 ? std::to_string(k) : std::to_string((1ull << (k % 64)) + (k & 1 ? 24 : 0)); mask_text(w); for (auto a : {"10.1.2.3/", "::1/", "0/", "2001:db8::ff00/", "1.2/", "0xC0A83801/"}) parse_all(a + w); }
SUB(mask_texts, 30000, 1000000, 0) { string t = rng.flip() ? std::to_string(rng.num()) : num_text(rng, rng.below(300)); if (rng.flip()) mutate(rng, t, "0123456789 -+x."); mask_text(t); }
// ---- family neutral ranges and views: every way to make one, equality across families, empty and invalid ones.
struct RV { int f = 0; u128 a = 1, b = 0; bool empty() const { return f == 0 || a > b; } }; // f: 0 invalid, 4, 6
static IPRange make_range(Rng &rng, RV const &v) {
  IPRange r; if (rng.flip()) r = rng.flip() ? IPRange{IP4Addr(gen4(rng))} : IPRange{mk6(gen6(rng))};
  if (v.f == 4) { IP4Addr a{in_addr_t(v.a)}, b{in_addr_t(v.b)}; IP4Range q{a, b}; swoc::DiscreteRange<IP4Addr> const &base = q; if (rng.flip()) q = IP4Range(base);
    switch (rng.below(a == b ? 12 : 9)) { case 0: return IPRange(a, b); case 1: return IPRange(q); case 2: return IPRange(IPAddr(a), IPAddr(b)); case 3: r.assign(a, b); return r; case 4: r = IPRange(IPAddr(a), IPAddr(b)); return r; case 5: { swoc::IPRangeView w; w.assign(q); r = w; return r; } case 6: { swoc::IPRangeView w; w.assign(q); return IPRange(w); } case 7: r = IPRange(q); return r; case 8: { if (v.empty()) return IPRange(q); string t = txt4(u32(v.a)) + "-" + txt4(u32(v.b)); if (rng.flip()) return IPRange(string_view(t)); CHECK(r.load(t), "range-make", "%s", t.c_str()); return r; } case 9: return IPRange(a); case 10: return IPRange(IPAddr(a)); default: { string t = txt4(u32(v.a)); return IPRange(string_view(t)); } } }
  if (v.f == 6) { IP6Addr a = mk6(v.a), b = mk6(v.b); IP6Range q{a, b}; swoc::DiscreteRange<IP6Addr> const &base = q; if (rng.flip()) q = IP6Range(base);
    switch (rng.below(a == b ? 12 : 9)) { case 0: return IPRange(a, b); case 1: return IPRange(q); case 2: return IPRange(IPAddr(a), IPAddr(b)); case 3: r.assign(a, b); return r; case 4: r = IPRange(IPAddr(a), IPAddr(b)); return r; case 5: { swoc::IPRangeView w; w.assign(q); r = w; return r; } case 6: { swoc::IPRangeView w; w.assign(q); return IPRange(w); } case 7: r = IPRange(q); return r; case 8: { if (v.empty()) return IPRange(q); string t = txt6(v.a) + "-" + txt6(v.b); if (rng.flip()) return IPRange(string_view(t)); CHECK(r.load(t), "range-make", "%s", t.c_str()); return r; } case 9: return IPRange(a); case 10: return IPRange(IPAddr(a)); default: { string t = txt6(v.a); return IPRange(string_view(t)); } } }
  switch (rng.below(6)) { case 0: r.clear(); return r; case 1: return IPRange(); case 2: return IPRange(IPAddr(IP4Addr(gen4(rng))), IPAddr(mk6(gen6(rng)))); case 3: return IPRange(string_view("no range")); case 4: r.load("1.2.3.4-::1"); return r; default: { swoc::IPRangeView w; return IPRange(w); } }
}
SUB(range_any, 40000, 1500000, 0) {
  RV v[2]; for (auto &x : v) { if (&x == &v[1] && rng.chance(1, 3)) { x = v[0]; if (x.f && !x.empty() && rng.flip()) { if (rng.flip() && x.a < x.b) ++x.a; else if (x.b > x.a) --x.b; } continue; } switch (rng.below(5)) { case 0: x = RV{}; break; case 1: case 2: x.f = 4; gen_pair<F4>(rng, x.a, x.b); break; default: x.f = 6; gen_pair<F6>(rng, x.a, x.b); } if (x.f && x.a < x.b && rng.chance(1, 10)) std::swap(x.a, x.b); }
  auto d = [](RV const &x) { return x.f == 0 ? string("invalid") : x.f == 4 ? txt4(u32(x.a)) + "-" + txt4(u32(x.b)) : txt6(x.a) + "-" + txt6(x.b); }; vh::T("%s vs %s", d(v[0]).c_str(), d(v[1]).c_str()); vh::obs(d(v[0])); vh::obs(d(v[1])); EV("range pairs");
  IPRange r[2] = {make_range(rng, v[0]), make_range(rng, v[1])}; swoc::IPRangeView w[2];
  for (int i = 0; i < 2; ++i) {
    auto const &x = v[i]; auto &q = r[i]; CHECK(q.empty() == x.empty(), "any-empty", "%s empty %d", d(x).c_str(), q.empty()); if (x.f == 4) w[i].assign(q.ip4()); else if (x.f == 6) w[i].assign(q.ip6()); else w[i].clear();
    if (x.f) { CHECK(q.is_ip4() == (x.f == 4) && q.is_ip6() == (x.f == 6) && q.family() == (x.f == 4 ? AF_INET : AF_INET6) && q.is(q.family()) && !q.is(AF_UNIX), "any-family", "%s", d(x).c_str()); CHECK(w[i].valid() && w[i].is_ip4() == q.is_ip4() && w[i].is_ip6() == q.is_ip6() && w[i].is(q.family()) && w[i].empty() == q.empty() && w[i] == q, "any-view", "%s", d(x).c_str()); } else CHECK(!q.is_ip4() && !q.is_ip6() && !w[i].valid() && w[i].empty() && !w[i].is_ip4() && !w[i].is_ip6(), "any-family", "invalid range has a family");
    if (!x.empty()) CHECK((x.f == 4 ? val4(q.min().ip4()) == x.a && val4(q.max().ip4()) == x.b : val6(q.min().ip6()) == x.a && val6(q.max().ip6()) == x.b) && q.min() == w[i].min() && q.max() == w[i].max(), "any-bounds", "%s", d(x).c_str());
    else { size_t n = 0; auto src = q.networks(); for (auto const &net : q.networks()) { (void)net; if (++n > 3) break; } CHECK(n == 0 && !(src != src.end()), "any-nets", "%s: empty range generates networks", d(x).c_str()); if (x.f == 0) { CHECK(!q.network_mask().is_valid(), "any-nets", "mask of an invalid range"); CHECK(!q.contains(IPAddr()) && !q.contains(IP4Addr()) && !q.contains(IP6Addr()), "any-contains", "invalid range contains an address"); CHECK(!q.min().is_valid() && !q.max().is_valid() && !w[i].min().is_valid(), "any-bounds", "invalid range has bounds"); } }
    IPRange c(q); CHECK(c == q && !(c != q), "any-eq", "copy of %s", d(x).c_str()); c.clear(); CHECK(c.empty() && (x.f == 0 || !(c == q)), "any-clear", "%s", d(x).c_str()); }
  if (!v[0].empty() || !v[1].empty() || (v[0].f == v[1].f && v[0].a == v[1].a && v[0].b == v[1].b)) { // different empty ranges: unspecified
    bool eq = v[0].f == v[1].f && ((v[0].empty() && v[1].empty()) || (v[0].a == v[1].a && v[0].b == v[1].b && v[0].empty() == v[1].empty())); CHECK((r[0] == r[1]) == eq && (r[1] == r[0]) == eq && (r[0] != r[1]) == !eq, "any-eq", "%s vs %s: %d", d(v[0]).c_str(), d(v[1]).c_str(), r[0] == r[1]); CHECK((w[0] == w[1]) == eq && (w[1] == w[0]) == eq && (w[0] != w[1]) == !eq, "view-eq", "views of %s and %s: %d", d(v[0]).c_str(), d(v[1]).c_str(), w[0] == w[1]); CHECK((w[0] == r[1]) == eq && (w[1] == r[0]) == eq, "view-eq", "view and range %s and %s", d(v[0]).c_str(), d(v[1]).c_str()); EV("equalities"); }
}
SUB(net_tuple, 20000, 500000, 0) {
  bool six = rng.flip(); u128 x = six ? gen6(rng) : gen4(rng); int W = six ? 128 : 32, w = int(rng.below(W + 1)); IPMask m{u8(w)}; IPAddr a = six ? IPAddr(mk6(x)) : IPAddr(IP4Addr{in_addr_t(x)}); IPNet n{a, m}; auto [na, nm] = n; CHECK(na == (a & m) && nm == m && swoc::get<0>(n) == na && swoc::get<1>(n) == m, "net-tuple", "IPNet"); IPNet g; CHECK(g.empty(), "net", "default network"); auto range = n.as_range(); CHECK(range.min() == n.min() && range.max() == n.max(), "net-range", "as_range"); vh::obs(u64(x)); vh::obs(u64(w)); EV("net tuples");
  if (six) { IP6Net k{mk6(x), m}; auto [ka, km] = k; CHECK(ka == k.min() && km == m && n == k, "net-tuple", "IP6Net"); } else { IP4Net k{IP4Addr{in_addr_t(x)}, m}; auto [ka, km] = k; CHECK(ka == k.min() && km == m && n == k, "net-tuple", "IP4Net"); }
}
// Network sequences of different families are never equal; of one family they are equal exactly while the rest of the sequence is the same.
SUB(net_sources, 12000, 300000, 0) {
  u128 a, b, c, d; gen_pair<F4>(rng, a, b); gen_pair<F6>(rng, c, d); IPRange r4{F4::Range{F4::mk(a), F4::mk(b)}}, r6{F6::Range{F6::mk(c), F6::mk(d)}}; auto n4 = r4.networks(), n6 = r6.networks(); CHECK(!(n4 == n6) && n4 != n6 && !(n6 == n4) && n6 != n4, "net-source", "sequences for both families are equal"); auto x = n4; CHECK(x == n4 && !(x != n4), "net-source", "a copy is not equal"); size_t left = ref_nets<F4>(a, b).size(); ++x; CHECK((x == n4) == false && (x != n4), "net-source", "advanced sequence is still equal (%zu networks)", left); auto y = n6; ++y; CHECK(!(y == n6) && y != n6, "net-source", "advanced sequence is still equal"); CHECK((x == n4.end()) == (left == 1), "net-source", "end after one of %zu", left); EV("sequence comparisons");
}
// Objects of different families are never equal, whatever their numeric values and what the family neutral object held before.
SUB(cross_family, 6000, 200000, 0) {
  u32 x = rng.flip() ? 0 : rng.flip() ? u32(gen4(rng)) : u32(1) << rng.below(32); u8 w = u8(rng.below(33)); u128 y = rng.flip() ? u128(x) : rng.flip() ? u128(__builtin_bswap32(x)) : rng.flip() ? u128(x) << 96 : rng.flip() ? u128(x) << 64 : rng.flip() ? 0 : u128(x) << 32; IPMask m{w}; IP4Addr a4{in_addr_t(x)}; IP6Addr a6 = mk6(y); vh::obs(u64(x) + w); EV("cross_family");
  IP4Net n4{a4, m}; IP6Net n6{a6, m}; IPNet g4{IPAddr(a6), m}, g6{IPAddr(a4), m}; g4.assign(IPAddr(a4), m); g6.assign(IPAddr(a6), m);
  CHECK(!(g4 == n6) && !(n6 == g4) && !(g6 == n4) && !(n4 == g6) && !(g4 == g6) && g4 != g6, "cross-net", "%s and %s of width %d are equal", txt4(x).c_str(), txt6(y).c_str(), w); CHECK(g4 == n4 && n4 == g4 && g6 == n6 && n6 == g6, "cross-net", "same network differs");
  IPRange r4{IPAddr(a6), IPAddr(a6)}, r6{IPAddr(a4), IPAddr(a4)}; r4.assign(a4, a4); r6.assign(a6, a6); swoc::IPRangeView v4, v6; v4.assign(r4.ip4()); v6.assign(r6.ip6());
  CHECK(!(r4 == r6) && r4 != r6 && !(v4 == v6) && v4 != v6 && !(v4 == r6) && !(v6 == r4) && v4 == r4 && v6 == r6, "cross-range", "%s and %s", txt4(x).c_str(), txt6(y).c_str());
  CHECK(!r4.contains(a6) && !r6.contains(a4) && !r4.contains(IPAddr(a6)) && !r6.contains(IPAddr(a4)) && !v4.contains(a6) && !v6.contains(a4) && !v4.contains(IPAddr(a6)) && !v6.contains(IPAddr(a4)) && r4.contains(a4) && r6.contains(a6), "cross-contains", "%s and %s", txt4(x).c_str(), txt6(y).c_str());
  IPAddr p{a6}, q{a4}; p = IPAddr(a4); q = IPAddr(a6); CHECK(p != q && !(p == q) && !(p == a6) && !(q == a4) && p == a4 && q == a6 && p < q && !(q < p), "cross-addr", "%s and %s", txt4(x).c_str(), txt6(y).c_str());
}
