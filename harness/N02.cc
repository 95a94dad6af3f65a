#include "ip.h"
#include <unordered_map>
// N02: address arithmetic, order, masks and classification against 32 / 128 bit integers.
static u128 mask128(int w) { return w == 0 ? 0 : ~u128(0) << (128 - w); }
static u32 mask32(int w) { return w <= 0 ? 0 : w >= 32 ? ~0u : ~0u << (32 - w); }
#define EQ4(EXPR, WANT, NAME) do { u32 g_ = val4(EXPR); u32 w_ = u32(WANT); CHECK(g_ == w_, NAME, "%s: x=%08x y=%08x n=%d got %08x expected %08x", #EXPR, x, y, n, g_, w_); vh::obs(g_); } while (0)
#define EQ6(EXPR, WANT, NAME) do { u128 g_ = val6(EXPR); u128 w_ = (WANT); CHECK(g_ == w_, NAME, "%s: x=%s y=%s n=%d got %s expected %s", #EXPR, hex128(x).c_str(), hex128(y).c_str(), n, hex128(g_).c_str(), hex128(w_).c_str()); vh::obs(u64(g_ ^ g_ >> 64)); } while (0)
template <class A> static void order(A const &a, A const &b, int c, char const *what, string const &d) { // c: expected sign
  CHECK((a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0), what, "%s expected %d: == %d != %d < %d <= %d > %d >= %d", d.c_str(), c, a == b, a != b, a < b, a <= b, a > b, a >= b);
  int k = a.cmp(b); CHECK((k > 0) - (k < 0) == c, what, "%s cmp %d expected %d", d.c_str(), k, c); if (c == 0) CHECK(std::hash<A>()(a) == std::hash<A>()(b), "hash", "%s equal addresses have different hashes", d.c_str()); vh::obs(u64(c + 1)); EV("order");
}
static int cmp(u128 a, u128 b) { return (a > b) - (a < b); }
static void arith4(u32 x, u32 y, int n) {
  IP4Addr a{in_addr_t(x)}, b{in_addr_t(y)}; IP4Addr t = a; EQ4(++t, x + 1, "inc4"); EQ4(t, x + 1, "inc4"); t = a; EQ4(--t, x - 1, "dec4"); t = a; EQ4(t <<= unsigned(n), n < 32 ? x << n : 0, "shl4"); t = a; EQ4(t >>= unsigned(n), n < 32 ? x >> n : 0, "shr4"); t = a; EQ4(t &= b, x & y, "and4"); t = a; EQ4(t |= b, x | y, "or4");
  for (unsigned i = 0; i < 4; ++i) CHECK(a[i] == (x >> (24 - 8 * i) & 255), "byte4", "%08x[%u] = %u", x, i, a[i]);
  CHECK(a.network_order() == htonl(x) && a.host_order() == x && IP4Addr::reorder(x) == __builtin_bswap32(x), "order4", "%08x", x); IP4Addr o; o = in_addr_t(htonl(x)); EQ4(o, x, "assign4"); sockaddr_in s; memset(&s, 0xa5, sizeof s); auto r = a.copy_to(&s); CHECK(r == &s && s.sin_family == AF_INET && s.sin_addr.s_addr == htonl(x), "sockaddr4", "%08x", x); EQ4(IP4Addr(&s), x, "sockaddr4"); IP4Addr q; q = &s; EQ4(q, x, "sockaddr4"); sockaddr_storage ss; memset(&ss, 0, sizeof ss); a.copy_to(reinterpret_cast<sockaddr *>(&ss)); CHECK(0 == memcmp(&reinterpret_cast<sockaddr_in *>(&ss)->sin_addr, &s.sin_addr, 4) && ss.ss_family == AF_INET, "sockaddr4", "generic copy_to");
  order(a, b, cmp(x, y), "order4", txt4(x) + " vs " + txt4(y)); order(IPAddr(a), IPAddr(b), cmp(x, y), "order-any", txt4(x) + " vs " + txt4(y));
  EQ6(IP6Addr(a), (u128(0xffff) << 32) | x, "mapped"); CHECK(IP6Addr(a).is_mapped_ip4(), "mapped", "%08x", x); CHECK(a.family() == AF_INET, "family", "IP4Addr"); EV("arith4");
}
static void arith6(u128 x, u128 y, int n) {
  IP6Addr a = mk6(x), b = mk6(y); EQ6(a, x, "store6"); IP6Addr t = a; EQ6(++t, x + 1, "inc6"); t = a; EQ6(--t, x - 1, "dec6"); t = a; EQ6(t <<= unsigned(n), n < 128 ? x << n : 0, "shl6"); t = a; EQ6(t >>= unsigned(n), n < 128 ? x >> n : 0, "shr6"); t = a; EQ6(t &= b, x & y, "and6"); t = a; EQ6(t |= b, x | y, "or6"); t = a; t.clear(); EQ6(t, 0, "clear6");
  for (int i = 0; i < 16; ++i) CHECK(a[i] == u8(x >> (120 - 8 * i)), "byte6", "%s[%d] = %u", hex128(x).c_str(), i, a[i]);
  in6_addr h = a.host_order(), h2; a.host_order(h2); u128 le; memcpy(&le, &h, 16); CHECK(le == x && 0 == memcmp(&h, &h2, 16), "order6", "host order of %s", hex128(x).c_str()); in6_addr w = raw6(x), w2; a.network_order(w2); CHECK(0 == memcmp(&w, &w2, 16), "order6", "network order of %s", hex128(x).c_str());
  sockaddr_in6 s; memset(&s, 0, sizeof s); CHECK(a.copy_to(&s) == &s && s.sin6_family == AF_INET6 && 0 == memcmp(&s.sin6_addr, &w, 16), "sockaddr6", "%s", hex128(x).c_str()); EQ6(IP6Addr(&s), x, "sockaddr6"); IP6Addr q; q = &s; EQ6(q, x, "sockaddr6"); q = b; q = w; EQ6(q, x, "assign6");
  order(a, b, cmp(x, y), "order6", txt6(x) + " vs " + txt6(y)); order(IPAddr(a), IPAddr(b), cmp(x, y), "order-any", txt6(x) + " vs " + txt6(y)); CHECK(a.family() == AF_INET6, "family", "IP6Addr"); EV("arith6");
}
static void masks4(u32 x, int n, int y) {
  IP4Addr a{in_addr_t(x)}; IPMask m{u8(n)}; u32 k = mask32(n); CHECK(m.is_valid() && m.width() == n, "mask", "width %d", n); EQ4(m.as_ip4(), k, "mask4"); EQ4(a & m, x & k, "mask4"); EQ4(a | m, x | ~k, "mask4"); IP4Addr t = a; EQ4(t &= m, x & k, "mask4"); t = a; EQ4(t |= m, x | ~k, "mask4");
  IPAddr g{a}; CHECK((g & m) == IPAddr(a & m) && (g | m) == IPAddr(a | m), "mask-any", "IPAddr mask of %08x/%d", x, n); IPAddr g2{g}; g2 &= m; CHECK(g2 == (a & m), "mask-any", "&="); g2 = g; g2 |= m; CHECK(g2 == (a | m), "mask-any", "|=");
  CHECK(IPMask::mask_for(IP4Addr{in_addr_t(k)}).width() == n, "mask_for", "mask_for(%08x) = %d expected %d", k, IPMask::mask_for(IP4Addr{in_addr_t(k)}).width(), n);
  int want = x ? 32 - __builtin_ctz(x) : 0; CHECK(IPMask::mask_for(a).width() == want && IPMask::mask_for(g).width() == want, "mask_for", "mask_for(%08x) = %d expected %d", x, IPMask::mask_for(a).width(), want); EV("mask4");
}
static void masks6(u128 x, int n, int y) {
  IP6Addr a = mk6(x); IPMask m{u8(n)}; u128 k = mask128(n); EQ6(m.as_ip6(), k, "mask6"); EQ6(a & m, x & k, "mask6"); EQ6(a | m, x | ~k, "mask6"); IP6Addr t = a; EQ6(t &= m, x & k, "mask6"); t = a; EQ6(t |= m, x | ~k, "mask6");
  IPAddr g{a}; CHECK((g & m) == IPAddr(a & m) && (g | m) == IPAddr(a | m), "mask-any", "IPAddr mask of %s/%d", hex128(x).c_str(), n);
  CHECK(IPMask::mask_for(mk6(k)).width() == n, "mask_for", "mask_for(%s) = %d expected %d", hex128(k).c_str(), IPMask::mask_for(mk6(k)).width(), n); int want = 128; if (!x) want = 0; else { u128 z = x; while (!(z & 1)) { z >>= 1; --want; } } CHECK(IPMask::mask_for(a).width() == want && IPMask::mask_for(g).width() == want, "mask_for", "mask_for(%s) = %d expected %d", hex128(x).c_str(), IPMask::mask_for(a).width(), want);
  IPMask p = m; if (y <= n) { p <<= u8(y); CHECK(p.width() == n - y, "mask-shift", "%d <<= %d gives %d", n, y, p.width()); } p = m; if (n + y <= 128) { p >>= u8(y); CHECK(p.width() == n + y, "mask-shift", "%d >>= %d gives %d", n, y, p.width()); } IPMask o{u8(y)}; CHECK((m == o) == (n == y) && (m != o) == (n != y) && (m < o) == (n < y), "mask-order", "%d vs %d", n, y); p.clear(); CHECK(!p.is_valid() && !IPMask().is_valid(), "mask", "clear"); EV("mask6");
}
static bool in(u32 x, u32 net, int w) { return (x & mask32(w)) == net; }
static void class4(u32 x) {
  IP4Addr a{in_addr_t(x)}; IPAddr g{a}; bool any = x == 0, lo = in(x, 0x7f000000, 8), mc = in(x, 0xe0000000, 4), ll = in(x, 0xa9fe0000, 16), pr = in(x, 0x0a000000, 8) || in(x, 0x64400000, 10) || in(x, 0xac100000, 12) || in(x, 0xc0a80000, 16);
#define CL(EXPR, W) do { bool g_ = (EXPR); CHECK(g_ == (W), "classify4", "%s for %s is %d", #EXPR, txt4(x).c_str(), g_); } while (0)
  CL(a.is_any(), any); CL(a.is_loopback(), lo); CL(a.is_multicast(), mc); CL(a.is_link_local(), ll); CL(a.is_private(), pr); CL(g.is_loopback(), lo); CL(g.is_multicast(), mc); CL(g.is_link_local(), ll); CL(g.is_private(), pr);
  CL(swoc::ip::is_loopback_host_order(x), lo); CL(swoc::ip::is_multicast_host_order(x), mc); CL(swoc::ip::is_link_local_host_order(x), ll); CL(swoc::ip::is_private_host_order(x), pr); in_addr_t w = htonl(x); CL(swoc::ip::is_loopback_network_order(w), lo); CL(swoc::ip::is_multicast_network_order(w), mc); CL(swoc::ip::is_link_local_network_order(w), ll); CL(swoc::ip::is_private_network_order(w), pr);
  sockaddr_in s; memset(&s, 0, sizeof s); a.copy_to(&s); auto sa = reinterpret_cast<sockaddr *>(&s); CL(swoc::ip::is_loopback(sa), lo); CL(swoc::ip::is_multicast(sa), mc); CL(swoc::ip::is_link_local(sa), ll); CL(swoc::ip::is_private(sa), pr); swoc::IPEndpoint e{sa}; CL(e.is_any(), any); CL(e.is_loopback(), lo); CL(e.is_multicast(), mc); CL(e.is_link_local(), ll); CL(e.is_private(), pr); CL(swoc::IPEndpoint::is_multicast(sa), mc); CL(swoc::IPEndpoint::is_link_local(sa), ll); CL(swoc::IPEndpoint::is_private(sa), pr);
#undef CL
  vh::obs(u64(any | lo << 1 | mc << 2 | ll << 3 | pr << 4)); vh::obs(x); EV("classify4");
}
static void class6(u128 x) {
  IP6Addr a = mk6(x); IPAddr g{a}; bool any = x == 0, lo = x == 1, mc = u8(x >> 120) == 0xff, ll = (x >> 118) == 0x3fa, pr = (x >> 121) == 0x7e, mp = (x >> 32) == 0xffff;
#define CL(EXPR, W) do { bool g_ = (EXPR); CHECK(g_ == (W), "classify6", "%s for %s is %d", #EXPR, txt6(x).c_str(), g_); } while (0)
  CL(a.is_any(), any); CL(a.is_loopback(), lo); CL(a.is_multicast(), mc); CL(a.is_link_local(), ll); CL(a.is_private(), pr); CL(a.is_mapped_ip4(), mp); CL(g.is_loopback(), lo); CL(g.is_multicast(), mc); CL(g.is_link_local(), ll); CL(g.is_private(), pr); in6_addr w = raw6(x); CL(swoc::ip::is_loopback_network_order(w), lo); CL(swoc::ip::is_multicast_network_order(w), mc); CL(swoc::ip::is_link_local_network_order(w), ll); CL(swoc::ip::is_private_network_order(w), pr);
  sockaddr_in6 s; memset(&s, 0, sizeof s); a.copy_to(&s); auto sa = reinterpret_cast<sockaddr *>(&s); CL(swoc::ip::is_loopback(sa), lo); CL(swoc::ip::is_multicast(sa), mc); CL(swoc::ip::is_link_local(sa), ll); CL(swoc::ip::is_private(sa), pr); swoc::IPEndpoint e{sa}; CL(e.is_any(), any); CL(e.is_loopback(), lo); CL(e.is_multicast(), mc); CL(e.is_link_local(), ll); CL(e.is_private(), pr);
#undef CL
  vh::obs(u64(any | lo << 1 | mc << 2 | ll << 3 | pr << 4 | mp << 5)); vh::obs(u64(x ^ x >> 64)); EV("classify6");
}
SUB(arith_ip4, 150000, 8000000, 0) { u32 x = gen4(rng); u32 y = rng.chance(1, 4) ? x + u32(rng.in(-2, 2)) : gen4(rng); int n = int(rng.below(33)); vh::T("%08x %08x %d", x, y, n); arith4(x, y, n); }
SUB(arith_ip6, 150000, 8000000, 0) { u128 x = gen6(rng); u128 y = rng.chance(1, 3) ? (rng.flip() ? x + u128(vh::i128(rng.in(-2, 2))) : x ^ u128(1) << rng.below(128)) : gen6(rng); int n = int(rng.below(129)); vh::T("%s %s %d", hex128(x).c_str(), hex128(y).c_str(), n); arith6(x, y, n); }
SUB(shifts, 129 * 20, 129 * 20, vh::EXHAUSTIVE) { int n = int(vh::S().idx % 129); arith6(vh::S().idx < 129 ? ~u128(0) : gen6(rng), gen6(rng), n); if (n <= 32) arith4(vh::S().idx < 129 ? ~0u : gen4(rng), gen4(rng), n); }
SUB(masks, 129 * 129 * 4, 129 * 129 * 40, vh::EXHAUSTIVE) { int n = int(vh::S().idx % 129), y = int(vh::S().idx / 129 % 129); masks6(rng.flip() ? gen6(rng) : ~u128(0) << rng.below(128), n, y); if (n <= 32) masks4(rng.flip() ? gen4(rng) : ~0u << rng.below(32), n, y); }
SUB(classify_ip4, 150000, 8000000, 0) { class4(gen4(rng)); }
SUB(classify_ip6, 150000, 8000000, 0) { class6(gen6(rng)); }
SUB(classify_top16, 65536, 65536, vh::EXHAUSTIVE) { u32 t = u32(vh::S().idx); class4(t << 16); class4(t << 16 | 0xffff); class6(u128(t) << 112); class6((u128(t) << 112) | (~u128(0) >> 16)); class6(u128(t) << 32 | 5); class6(u128(t) << 48 | u128(0xffff) << 32); class6(t); class6(u128(1) << 64 | t); }
// Family neutral: triples of mixed families form one total order.
static IPAddr gen_any(Rng &rng, int &f, u128 &v) { switch (rng.below(5)) { case 0: { f = 0; v = 0; IPAddr a{rng.flip() ? IPAddr(IP4Addr(gen4(rng))) : IPAddr(mk6(gen6(rng)))}; switch (rng.below(3)) { case 0: a.invalidate(); return a; case 1: return IPAddr(); default: a.load("bogus"); return a; } } case 1: case 2: { u32 x = gen4(rng); f = 1; v = x; switch (rng.below(4)) { case 0: { IPAddr a; a = IP4Addr(x); return a; } case 1: { sockaddr_in s; memset(&s, 0, sizeof s); IP4Addr(x).copy_to(&s); return IPAddr(reinterpret_cast<sockaddr *>(&s)); } case 2: { IPAddr a(mk6(5)); a.assign(in_addr_t(htonl(x))); return a; } default: return IPAddr(IP4Addr(x)); } } default: { f = 2; v = rng.chance(1, 4) ? gen4(rng) : gen6(rng); switch (rng.below(4)) { case 0: { IPAddr a; a = mk6(v); return a; } case 1: { sockaddr_in6 s; memset(&s, 0, sizeof s); mk6(v).copy_to(&s); return IPAddr(reinterpret_cast<sockaddr *>(&s)); } case 2: { IPAddr a{IP4Addr{in_addr_t(9)}}; a.assign(raw6(v)); return a; } default: return IPAddr(raw6(v)); } } } }
SUB(mixed_order, 200000, 10000000, 0) {
  int f[3]; u128 v[3]; IPAddr a[3]; for (int i = 0; i < 3; ++i) { if (i && rng.chance(1, 4)) { int j = int(rng.below(i)); a[i] = a[j]; f[i] = f[j]; v[i] = v[j]; } else a[i] = gen_any(rng, f[i], v[i]); }
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int c = f[i] != f[j] ? (f[i] < f[j] ? -1 : 1) : cmp(v[i], v[j]); char d[128]; snprintf(d, sizeof d, "family rank %d value %s vs family rank %d value %s", f[i], hex128(v[i]).c_str(), f[j], hex128(v[j]).c_str()); order(a[i], a[j], c, "order-any", d); CHECK(a[i].is_same_family(a[j]) == (f[i] == f[j] && f[i] != 0), "same-family", "%s", d); }
  for (int i = 0; i < 3; ++i) { CHECK(a[i].is_valid() == (f[i] != 0) && a[i].is_ip4() == (f[i] == 1) && a[i].is_ip6() == (f[i] == 2) && a[i].family() == (f[i] == 1 ? AF_INET : f[i] == 2 ? AF_INET6 : AF_UNSPEC), "family", "rank %d", f[i]); if (f[i] == 0) CHECK(!a[i].is_loopback() && !a[i].is_multicast() && !a[i].is_link_local() && !a[i].is_private() && a[i] == IPAddr::INVALID, "classify-invalid", "an invalid address is classified");
    if (f[i]) { sockaddr_storage s; memset(&s, 0xa5, sizeof s); a[i].copy_to(reinterpret_cast<sockaddr *>(&s)); IPAddr b; b.assign(reinterpret_cast<sockaddr *>(&s)); CHECK(b == a[i], "sockaddr-any", "sockaddr conversion changed the address"); auto sa = reinterpret_cast<sockaddr const *>(&s); for (int j = 0; j < 3; ++j) CHECK((a[j] == sa) == (a[j] == a[i]) && (a[j] != sa) == (a[j] != a[i]) && (sa == a[j]) == (a[j] == a[i]) && (sa != a[j]) == (a[j] != a[i]), "sockaddr-eq", "comparison with sockaddr"); IPAddr c{swoc::IPEndpoint(sa)}; CHECK(c == a[i], "endpoint-any", "IPEndpoint conversion"); }
    for (int j = 0; j < 3; ++j) { if (f[j] == 1) { IP4Addr x{in_addr_t(v[j])}; bool e = f[i] == 1 && v[i] == v[j]; CHECK((a[i] == x) == e && (x == a[i]) == e && (a[i] != x) == !e && (x != a[i]) == !e, "mixed-eq", "IPAddr vs IP4Addr"); } if (f[j] == 2) { IP6Addr x = mk6(v[j]); bool e = f[i] == 2 && v[i] == v[j]; CHECK((a[i] == x) == e && (x == a[i]) == e && (a[i] != x) == !e && (x != a[i]) == !e, "mixed-eq", "IPAddr vs IP6Addr"); } } }
}
// Hash containers find exactly the equal keys.
SUB(hash_keys, 3000, 100000, 0) { std::unordered_map<IPAddr, int> m; std::vector<std::pair<IPAddr, std::pair<int, u128>>> keys; for (int i = 0; i < 40; ++i) { int f; u128 v; IPAddr a = gen_any(rng, f, v); keys.push_back({a, {f, v}}); m[a] = i; } for (auto &k : keys) { auto it = m.find(k.first); CHECK(it != m.end() && keys[it->second].second == k.second, "hash", "lookup by equal key"); } size_t d = 0; for (size_t i = 0; i < keys.size(); ++i) { bool seen = false; for (size_t j = 0; j < i; ++j) seen |= keys[j].second == keys[i].second; d += !seen; } CHECK(m.size() == d, "hash", "%zu entries expected %zu", m.size(), d); vh::obs(d); }
// Every way to store an address in a family neutral object, over whatever was there, including null and foreign socket addresses.
SUB(assign_forms, 60000, 2000000, 0) {
  int f0; u128 v0; IPAddr a = gen_any(rng, f0, v0); u32 x = gen4(rng); u128 y = gen6(rng); unsigned how = unsigned(rng.below(14)); int f = 1; sockaddr_in s4; memset(&s4, 0xa5, sizeof s4); IP4Addr(x).copy_to(&s4); sockaddr_in6 s6; memset(&s6, 0, sizeof s6); mk6(y).copy_to(&s6); vh::T("form %u %08x %s", how, x, hex128(y).c_str()); vh::obs(u64(how)); vh::obs(u64(f0)); vh::obs(x); EV("assignments");
  switch (how) {
  case 0: a = in_addr_t(htonl(x)); break; case 1: a.assign(in_addr_t(htonl(x))); break; case 2: a = reinterpret_cast<sockaddr const *>(&s4); break; case 3: a.assign(&s4); break; case 4: a = swoc::IPEndpoint(reinterpret_cast<sockaddr const *>(&s4)); break; case 5: a = IP4Addr(x); break;
  case 6: a = raw6(y); f = 2; break; case 7: a = reinterpret_cast<sockaddr const *>(&s6); f = 2; break; case 8: a.assign(&s6); f = 2; break; case 9: a = swoc::IPEndpoint(reinterpret_cast<sockaddr const *>(&s6)); f = 2; break;
  case 10: a.assign(static_cast<sockaddr const *>(nullptr)); f = 0; break; case 11: a.assign(static_cast<sockaddr_in const *>(nullptr)); f = 0; break; case 12: a.assign(static_cast<sockaddr_in6 const *>(nullptr)); f = 0; break;
  default: { sockaddr_storage ss; memset(&ss, 0x5a, sizeof ss); ss.ss_family = rng.pick<sa_family_t>({AF_UNIX, AF_UNSPEC, AF_NETLINK, 200}); a.assign(reinterpret_cast<sockaddr const *>(&ss)); f = 0; } }
  CHECK(a.is_valid() == (f != 0) && a.is_ip4() == (f == 1) && a.is_ip6() == (f == 2) && a.family() == (f == 1 ? AF_INET : f == 2 ? AF_INET6 : AF_UNSPEC), "assign-any", "form %u: family %d", how, a.family());
  if (f == 1) CHECK(val4(a.ip4()) == x && val4(static_cast<IP4Addr>(a)) == x, "assign-any", "form %u: %08x expected %08x", how, val4(a.ip4()), x); if (f == 2) CHECK(val6(a.ip6()) == y && val6(static_cast<IP6Addr>(a)) == y, "assign-any", "form %u", how); if (f == 0) CHECK(a == IPAddr::INVALID && !IPMask::mask_for(a).is_valid(), "assign-any", "form %u", how);
  // end points against addresses
  swoc::IPEndpoint e(rng.flip() ? reinterpret_cast<sockaddr const *>(&s4) : reinterpret_cast<sockaddr const *>(&s6)); bool eq = f && e.family() == a.family() && (f == 1 ? val4(a.ip4()) == x : val6(a.ip6()) == y); if (f) CHECK((a == e) == eq && (e == a) == eq && (a != e) == !eq && (e != a) == !eq, "endpoint-eq", "address against end point: %d %d %d %d expected %d", a == e, e == a, a != e, e != a, eq);
  // raw IPv6 addresses and views of the parts
  u128 z = rng.flip() ? y : rng.flip() ? y ^ (u128(1) << rng.below(128)) : gen6(rng); in6_addr p = raw6(y), q = raw6(z); CHECK((p == q) == (y == z) && (p != q) == (y != z), "raw-eq", "in6_addr comparison"); IP6Addr m = mk6(y), c = m; m = static_cast<sockaddr_in6 const *>(nullptr); CHECK(val6(m) == 0, "assign6", "null socket address"); m = c;
  auto words = m.as_span<u64>(); auto cw = static_cast<IP6Addr const &>(m).as_span<u64>(); CHECK(words.size() == 2 && cw.size() == 2 && m.as_span<u8>().size() == 16 && m.as_span<uint16_t>().size() == 8 && m.as_span<u32>().size() == 4 && words.data() == cw.data(), "span", "as_span sizes"); CHECK(words[0] == u64(y >> 64) && words[1] == u64(y), "span", "words"); words[1] ^= 1; CHECK(val6(m) == (y ^ 1), "span", "write through the span");
}
