// B07: IP objects print in the documented formats.
#include "bw.h"
#include "ip.h"
#include "swoc/swoc_ip.h"
#include <sstream>
#include <sys/un.h>
using namespace bw;
using swoc::IPEndpoint; using swoc::IP4Srv; using swoc::IP6Srv; using swoc::IPSrv; using swoc::IPRangeView;

// What the extension asks of the numeric elements.
struct Elem { bool align = false; char fill = '0'; unsigned radix = 0; bool up = false; };
static Elem elem_of(FSpec const &f, bool aligned, char fill) { Elem e; e.align = aligned; e.fill = fill; switch (f.type) { case 'x': e.radix = 16; break; case 'X': e.radix = 16; e.up = true; break; case 'o': e.radix = 8; break; case 'b': e.radix = 2; break; case 'd': e.radix = 10; break; default: break; } return e; }
static std::string el(u64 v, Elem const &e, unsigned deflt, size_t width) { auto d = digits(v, e.radix ? e.radix : deflt, e.up); if (e.align && d.size() < width) d.insert(0, width - d.size(), e.fill); return d; }
static std::string r4(u32 v, Elem const &e) { std::string r; for (int i = 3; i >= 0; --i) { r += el(v >> (8 * i) & 255, e, 10, 3); if (i) r += '.'; } return r; }
static std::string r6(u128 v, Elem const &e) {
  unsigned q[8]; for (int i = 0; i < 8; ++i) q[i] = unsigned(v >> (16 * (7 - i)) & 0xffff); int bi = -1, bn = 1;
  if (!e.align) for (int i = 0; i < 8;) { if (q[i]) { ++i; continue; } int j = i; while (j < 8 && !q[j]) ++j; if (j - i > bn) { bn = j - i; bi = i; } i = j; }
  std::string r; for (int i = 0; i < 8;) { if (i == bi) { r += "::"; i += bn; continue; } if (!r.empty() && r.back() != ':') r += ':'; r += el(q[i], e, 16, 4); ++i; } return r; }
// A format with optional element radix, alignment extension, and overall width.
struct Gen { FSpec f; Elem e; std::string ext; };
static Gen gen(Rng &rng, bool align_ok = true) {
  Gen g; if (rng.flip()) { g.f.min = rng.below(70); if (g.f.min && rng.flip()) { g.f.align = rng.pick<char>({'<', '>', '^'}); if (rng.flip()) g.f.fill = rng.pick<char>({'.', '*', '0', '=', 'x'}); } } if (rng.chance(1, 8)) g.f.max = g.f.min + rng.below(30);
  if (rng.chance(1, 4)) g.f.type = rng.pick<char>({'x', 'X', 'o', 'b', 'd'});
  bool a = align_ok && rng.chance(1, 3); char fill = '0'; if (a) { if (rng.flip()) g.ext = "="; else { fill = rng.pick<char>({'0', ' ', '*', '_', '#'}); g.ext = std::string(1, fill) + "="; } } g.e = elem_of(g.f, a, fill); return g; }
static std::string fit(std::string const &s, FSpec const &f) { return clip(place(s, f), f); }
template <class V> void value(Rng &rng, V const &v, std::string const &body, Gen const &g, char const *oracle) {
  FSpec f = g.f; if (g.ext.size()) { f.has_ext = true; f.ext = g.ext; } auto fmt = f.text(rng); HText h(fmt); auto got = render(TextView(h.view()), v); T("%s -> %s", fmt.c_str(), got.c_str()); obs(fmt); obs(got); eq_text(got, fit(body, f), oracle, "format " + esc(fmt)); }
template <class V> constexpr bool streams = std::is_same_v<V, IP4Addr> || std::is_same_v<V, IP6Addr> || std::is_same_v<V, IPAddr> || std::is_same_v<V, IP4Range> || std::is_same_v<V, IP6Range> || std::is_same_v<V, IPRange>;
template <class V> void plain(V const &v, std::string const &want, char const *oracle) { eq_text(render("{}", v), want, oracle, "default"); if constexpr (streams<V>) { std::ostringstream os; os << v; eq_text(os.str(), want, oracle, "stream"); } }

static std::string any6(Rng &rng, u128 &v, Elem const &e) { v = gen6(rng); return r6(v, e); }
SUB(address, 150000, 2000000, 0) {
  Gen g = gen(rng); u32 a = gen4(rng); u128 b = gen6(rng); auto w4 = r4(a, g.e), w6 = r6(b, g.e);
  value(rng, IP4Addr(a), w4, g, "ipv4"); value(rng, mk6(b), w6, g, "ipv6"); value(rng, raw6(b), w6, g, "in6_addr");
  plain(IP4Addr(a), txt4(a), "ipv4"); plain(mk6(b), txt6(b), "ipv6"); char buf[INET6_ADDRSTRLEN]; in6_addr x = raw6(b); inet_ntop(AF_INET6, &x, buf, sizeof buf); if (!strchr(buf, '.')) eq_text(render("{}", mk6(b)), buf, "inet_ntop", "default");
  // generic address : 'a' and 'f'
  bool six = rng.flip(); IPAddr ia = six ? IPAddr(mk6(b)) : IPAddr(IP4Addr(a)); plain(ia, six ? txt6(b) : txt4(a), "address"); bool ea = rng.flip(), ef = rng.flip(); std::string sel; if (ea) sel += rng.flip() ? 'a' : 'A'; if (ef) sel += rng.flip() ? 'f' : 'F'; if (sel.size() == 2 && rng.flip()) std::swap(sel[0], sel[1]); if (sel.empty()) ea = true;
  Gen h = g; h.ext += sel; std::string fam = g.e.radix ? digits(six ? AF_INET6 : AF_INET, g.e.radix, g.e.up) : six ? "ipv6" : "ipv4"; value(rng, ia, (ea ? six ? w6 : w4 : "") + (ea && ef ? " " : "") + (ef ? fam : ""), h, "address parts"); EV("addresses");
}
// every arrangement of zero, small and large groups.
SUB(compression, 6561, 6561, vh::EXHAUSTIVE) {
  u64 k = vh::S().idx; u128 v = 0; for (int i = 0; i < 8; ++i) { v = v << 16 | (k % 3 == 0 ? 0 : k % 3 == 1 ? 1 : 0xabcd); k /= 3; } Elem e; auto w = r6(v, e); eq_text(w, txt6(v), "reference", "self check"); plain(mk6(v), w, "compression"); plain(IPAddr(mk6(v)), w, "compression"); IP6Addr back; CHECK(back.load(w) && val6(back) == v, "round trip", "%s", w.c_str());
  in6_addr x = raw6(v); char buf[INET6_ADDRSTRLEN]; inet_ntop(AF_INET6, &x, buf, sizeof buf); if (!strchr(buf, '.')) eq_text(w, buf, "reference", "inet_ntop"); Elem al; al.align = true; eq_text(render("{::=}", mk6(v)), r6(v, al), "aligned", "full"); obs(w);
}
SUB(endpoint, 150000, 2000000, 0) {
  Gen g = gen(rng); bool six = rng.flip(); u32 a = gen4(rng); u128 b = gen6(rng); u16 port = rng.chance(1, 4) ? rng.pick<u16>({0, 1, 80, 443, 8080, 65535}) : u16(rng.u()); IPEndpoint ep; sockaddr_in s4{}; sockaddr_in6 s6{};
  if (six) { s6.sin6_family = AF_INET6; s6.sin6_addr = raw6(b); s6.sin6_port = htons(port); ep.assign(reinterpret_cast<sockaddr *>(&s6)); } else { s4.sin_family = AF_INET; s4.sin_addr.s_addr = htonl(a); s4.sin_port = htons(port); ep.assign(reinterpret_cast<sockaddr *>(&s4)); }
  bool A = rng.flip(), P = rng.flip(), F = rng.flip(); std::string sel; if (A) sel += rng.flip() ? 'a' : 'A'; if (P) sel += rng.flip() ? 'p' : 'P'; if (F) sel += rng.flip() ? 'f' : 'F'; for (size_t i = sel.size(); i > 1; --i) std::swap(sel[i - 1], sel[rng.below(i)]); if (sel.empty()) A = P = true;
  g.ext += sel; Elem e = g.e; std::string w; if (A) { auto t = six ? r6(b, e) : r4(a, e); if (P && six) t = "[" + t + "]"; w += t; if (P) w += ':'; } if (P) w += el(port, e, 10, 5); if (F) { if (A || P) w += ' '; w += e.radix ? digits(six ? AF_INET6 : AF_INET, e.radix, e.up) : six ? "ipv6" : "ipv4"; }
  value(rng, ep, w, g, "endpoint"); sockaddr const *sa = &ep.sa; value(rng, sa, w, g, "sockaddr"); auto d = (six ? "[" + txt6(b) + "]" : txt4(a)) + ":" + std::to_string(port); eq_text(render("{}", ep), d, "endpoint", "default"); eq_text(render("{}", sa), d, "sockaddr", "default"); if (six) { sockaddr_in6 const *p = &s6; value(rng, p, w, g, "sockaddr_in6"); eq_text(render("{}", p), d, "sockaddr_in6", "default"); } else { sockaddr_in const *p = &s4; value(rng, p, w, g, "sockaddr_in"); eq_text(render("{}", p), d, "sockaddr_in", "default"); }
  char pb[40]; snprintf(pb, sizeof pb, "0x%zx", size_t(sa)); eq_text(render("{:p}", sa), pb, "pointer", "type p"); IPEndpoint back; if (d.size()) { CHECK(back.parse(d), "round trip", "%s", d.c_str()); CHECK(IPAddr(&back.sa) == IPAddr(&ep.sa) && back.host_order_port() == port, "round trip", "%s", d.c_str()); }
  EV("endpoints");
}
SUB(service, 100000, 1000000, 0) {
  Gen g = gen(rng); g.f.type = 0; g.e.radix = 0; g.e.up = false; u32 a = gen4(rng); u128 b = gen6(rng); u16 port = rng.chance(1, 3) ? 0 : u16(rng.u()); auto p = std::to_string(port); auto s4 = [&](Elem const &e) { return r4(a, e) + (port ? ":" + p : ""); }; auto s6 = [&](Elem const &e) { return port ? "[" + r6(b, e) + "]:" + p : r6(b, e); }; Elem e0;
  IP4Srv v4{IP4Addr(a), port}; IP6Srv v6{mk6(b), port}; value(rng, v4, s4(g.e), g, "ipv4 service"); value(rng, v6, s6(g.e), g, "ipv6 service"); value(rng, IPSrv(v4), s4(g.e), g, "service"); value(rng, IPSrv(v6), s6(g.e), g, "service"); plain(v4, s4(e0), "ipv4 service"); plain(v6, s6(e0), "ipv6 service"); plain(IPSrv(v4), s4(e0), "service"); plain(IPSrv(v6), s6(e0), "service"); EV("services");
}
template <class W> std::string range_text(W lo, W hi, bool c, unsigned bits, std::function<std::string(W)> show) {
  if (lo > hi) return "*-*"; if (c) { if (lo == hi) return show(lo); for (unsigned n = 0; n < bits; ++n) { W m = n ? W(W(~W(0)) >> n) : W(~W(0)); if ((lo & m) == 0 && hi == W(lo | m)) return show(lo) + "/" + std::to_string(n); } } return show(lo) + "-" + show(hi); }
template <class W> void pick_range(Rng &rng, W base, unsigned bits, W &lo, W &hi, W other) {
  switch (rng.below(6)) { case 0: lo = hi = base; break; case 1: case 2: { unsigned n = unsigned(rng.below(bits + 1)); W m = n == bits ? W(0) : W(W(~W(0)) >> n); lo = base & W(~m); hi = lo | m; if (rng.chance(1, 4)) { if (rng.flip()) { if (hi > lo) --hi; } else if (lo < hi) ++lo; } break; } case 3: lo = base; hi = base + W(rng.below(300)); if (hi < lo) hi = lo; break; default: lo = std::min(base, other); hi = std::max(base, other); } }
SUB(ranges, 150000, 2000000, 0) {
  Gen g = gen(rng); Elem e = g.e, e0; bool c = rng.flip(); if (c) { if (g.ext.empty() || rng.flip()) g.ext += "c"; else c = false; } u32 l4, h4; u128 l6, h6; pick_range<u32>(rng, gen4(rng), 32, l4, h4, gen4(rng)); pick_range<u128>(rng, gen6(rng), 128, l6, h6, gen6(rng));
  std::function<std::string(u32)> f4 = [&](u32 v) { return r4(v, e); }, f40 = [&](u32 v) { return r4(v, e0); }; std::function<std::string(u128)> f6 = [&](u128 v) { return r6(v, e); }, f60 = [&](u128 v) { return r6(v, e0); };
  bool none = rng.chance(1, 20); IP4Range q4 = none ? IP4Range{} : IP4Range(IP4Addr(l4), IP4Addr(h4)); IP6Range q6 = none ? IP6Range{} : IP6Range(mk6(l6), mk6(h6)); auto t4 = none ? "*-*" : range_text<u32>(l4, h4, c, 32, f4), t6 = none ? "*-*" : range_text<u128>(l6, h6, c, 128, f6), d4 = none ? "*-*" : range_text<u32>(l4, h4, false, 32, f40), d6 = none ? "*-*" : range_text<u128>(l6, h6, false, 128, f60);
  value(rng, q4, t4, g, "ipv4 range"); value(rng, q6, t6, g, "ipv6 range"); value(rng, IPRange(q4), t4, g, "range"); value(rng, IPRange(q6), t6, g, "range"); IPRangeView w4, w6; w4.assign(q4); w6.assign(q6); value(rng, w4, t4, g, "range view"); value(rng, w6, t6, g, "range view"); plain(q4, d4, "ipv4 range"); plain(q6, d6, "ipv6 range"); plain(IPRange(q4), d4, "range"); plain(IPRange(q6), d6, "range"); value(rng, IPRange(), "*-*", g, "empty range"); value(rng, IPRangeView(), "*-*", g, "empty range");
  if (!none) { IP4Range b4; CHECK(b4.load(d4) && b4 == q4, "round trip", "%s", d4.c_str()); IP6Range b6; CHECK(b6.load(d6) && b6 == q6, "round trip", "%s", d6.c_str()); auto c4 = render("{::c}", q4), c6 = render("{::c}", q6); IP4Range x4; CHECK(x4.load(c4) && x4 == q4, "round trip", "%s", c4.c_str()); IP6Range x6; CHECK(x6.load(c6) && x6 == q6, "round trip", "%s", c6.c_str()); }
  EV("ranges");
}
SUB(nets, 100000, 1000000, 0) {
  Gen g = gen(rng); unsigned n4 = unsigned(rng.below(33)), n6 = unsigned(rng.below(129)); u32 a = gen4(rng); u128 b = gen6(rng); u32 m4 = n4 == 0 ? 0 : ~0u << (32 - n4); u128 m6 = n6 == 0 ? 0 : ~u128(0) << (128 - n6); auto t4 = "/" + std::to_string(n4), t6 = "/" + std::to_string(n6); Elem e0;
  IP4Net v4{IP4Addr(a), IPMask(n4)}; IP6Net v6{mk6(b), IPMask(n6)}; value(rng, v4, r4(a & m4, g.e) + t4, g, "ipv4 net"); value(rng, v6, r6(b & m6, g.e) + t6, g, "ipv6 net"); value(rng, IPNet(IPAddr(IP4Addr(a)), IPMask(n4)), r4(a & m4, g.e) + t4, g, "net"); value(rng, IPNet(IPAddr(mk6(b)), IPMask(n6)), r6(b & m6, g.e) + t6, g, "net"); plain(v4, r4(a & m4, e0) + t4, "ipv4 net"); plain(v6, r6(b & m6, e0) + t6, "ipv6 net"); plain(IPNet(IPAddr(IP4Addr(a)), IPMask(n4)), r4(a & m4, e0) + t4, "net"); plain(IPNet(IPAddr(mk6(b)), IPMask(n6)), r6(b & m6, e0) + t6, "net"); Gen p = g; p.ext.clear(); value(rng, IPNet(), "*invalid*", p, "net");
  FSpec f = g.f; unsigned m = unsigned(rng.below(129)); auto fmt = f.text(rng); eq_text(render(TextView(fmt), IPMask(m)), ref_int(m, false, f), "mask", fmt); eq_text(render("{}", IPMask(m)), std::to_string(m), "mask", "default"); EV("networks");
}
