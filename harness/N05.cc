#include "ip.h"
#include "swoc/IPEndpoint.h"
#include "swoc/IPSrv.h"
#include <new>
using swoc::IPEndpoint; using swoc::IPSrv; using swoc::IP4Srv; using swoc::IP6Srv;
// N05: endpoints and services preserve family, address and port.
struct A { bool six; u128 v; unsigned port; bool operator==(A const &o) const { return six == o.six && v == o.v && port == o.port; } };
static string desc(A const &a) { return (a.six ? "[" + txt6(a.v) + "]" : txt4(u32(a.v))) + ":" + std::to_string(a.port); }
static unsigned genport(Rng &rng) { switch (rng.below(4)) { case 0: return rng.pick({0u, 1u, 80u, 255u, 256u, 8080u, 65535u, 65534u, 32768u, 0xff00u, 9u, 10u, 99u, 100u, 999u, 1000u, 9999u, 10000u}); case 1: return unsigned(rng.below(100)); default: return unsigned(rng.below(65536)); } }
static A gen(Rng &rng) { A a; a.six = rng.flip(); a.v = a.six ? gen6(rng) : gen4(rng); a.port = genport(rng); return a; }
static sockaddr_in sin4(A const &a) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(uint16_t(a.port)); s.sin_addr.s_addr = htonl(u32(a.v)); return s; }
static sockaddr_in6 sin6(A const &a) { sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = htons(uint16_t(a.port)); s.sin6_addr = raw6(a.v); return s; }
static A from_sa(sockaddr const *s) { A a{false, 0, 0}; if (s->sa_family == AF_INET) { sockaddr_in t; memcpy(&t, s, sizeof t); a.v = ntohl(t.sin_addr.s_addr); a.port = ntohs(t.sin_port); } else if (s->sa_family == AF_INET6) { sockaddr_in6 t; memcpy(&t, s, sizeof t); a.six = true; a.v = num6(t.sin6_addr); a.port = ntohs(t.sin6_port); } else vh::fail("family", "socket address family %d", s->sa_family); return a; }
static A from_ep(IPEndpoint const &e) { return from_sa(&e.sa); }
static A from_srv(IPSrv const &s) { CHECK(s.is_valid(), "srv-valid", "service not valid"); CHECK(s.is_ip4() != s.is_ip6() && s.family() == (s.is_ip4() ? AF_INET : AF_INET6), "srv-family", "service family %d", s.family()); IPAddr ad = s.addr(); CHECK(ad.family() == s.family(), "srv-family", "address family %d in service of family %d", ad.family(), s.family());
  A a{s.is_ip6(), s.is_ip6() ? val6(ad.ip6()) : val4(ad.ip4()), s.host_order_port()}; CHECK(s.network_order_port() == htons(uint16_t(a.port)), "port-order", "service port %u network order %04x", a.port, s.network_order_port());
  if (a.six) { CHECK(val6(s.ip6().addr()) == a.v && s.ip6().host_order_port() == a.port, "srv-sub", "ip6() differs"); IP6Srv t(s); CHECK(val6(t.addr()) == a.v && t.host_order_port() == a.port, "srv-sub", "IP6Srv(IPSrv)"); IP4Srv n(s); CHECK(val4(n.addr()) == 0 && n.host_order_port() == 0, "srv-sub", "IP4Srv of an IPv6 service"); }
  else { CHECK(val4(s.ip4().addr()) == a.v && s.ip4().host_order_port() == a.port, "srv-sub", "ip4() differs"); IP4Srv t(s); CHECK(val4(t.addr()) == a.v && t.host_order_port() == a.port, "srv-sub", "IP4Srv(IPSrv)"); IP6Srv n(s); CHECK(val6(n.addr()) == 0 && n.host_order_port() == 0, "srv-sub", "IP6Srv of an IPv4 service"); }
  return a; }
#define EQ(GOT, WHAT) do { A g_ = (GOT); CHECK(g_ == want, "convert", "%s gave %s expected %s", WHAT, desc(g_).c_str(), desc(want).c_str()); } while (0)
alignas(16) static unsigned char pool[512];
template <class T, class... X> static T &fresh(int slot, Rng &rng, X &&...x) { unsigned char *p = pool + 64 * slot; uint16_t f = rng.pick<uint16_t>({0, 2, 10, 0xffff, 0x5555}); for (int i = 0; i < 64; i += 2) memcpy(p + i, &f, 2); asm volatile("" ::: "memory"); return *new (p) T(std::forward<X>(x)...); }

SUB(convert, 150000, 10000000, 0) {
  A const want = gen(rng); vh::obs(u64(want.v) ^ u64(want.v >> 64) ^ want.port); vh::T("%s", desc(want).c_str()); sockaddr_in s4 = sin4(want); sockaddr_in6 s6 = sin6(want); sockaddr const *sa = want.six ? reinterpret_cast<sockaddr const *>(&s6) : reinterpret_cast<sockaddr const *>(&s4); size_t len = want.six ? sizeof s6 : sizeof s4; EV(want.six ? "v6" : "v4");
  // endpoint from socket addresses (exact heap object: over read / over write is seen)
  std::unique_ptr<char[]> hb(new char[len]); memcpy(hb.get(), sa, len); auto hsa = reinterpret_cast<sockaddr *>(hb.get());
  IPEndpoint &e = fresh<IPEndpoint>(0, rng, static_cast<sockaddr const *>(hsa)); EQ(from_ep(e), "IPEndpoint(sockaddr)");
  IPEndpoint &e2 = want.six ? fresh<IPEndpoint>(1, rng, static_cast<sockaddr_in6 const *>(reinterpret_cast<sockaddr_in6 *>(hsa))) : fresh<IPEndpoint>(1, rng, static_cast<sockaddr_in const *>(reinterpret_cast<sockaddr_in *>(hsa))); EQ(from_ep(e2), "IPEndpoint(sockaddr_inX)");
  { IPEndpoint &t = fresh<IPEndpoint>(2, rng); CHECK(!t.is_valid() && t.family() == AF_UNSPEC, "default", "default endpoint valid"); t.assign(hsa); EQ(from_ep(t), "assign(sockaddr)"); if (want.six) t.set_to_any(AF_INET), t.assign(&s6); else t.set_to_loopback(AF_INET6), t.assign(&s4); EQ(from_ep(t), "assign(sockaddr_inX)"); }
  { IPEndpoint &t = fresh<IPEndpoint>(2, rng, e); EQ(from_ep(t), "copy"); IPEndpoint &u = fresh<IPEndpoint>(3, rng); u.set_to_any(want.six ? AF_INET : AF_INET6); u = t; EQ(from_ep(u), "operator="); u = *&u; EQ(from_ep(u), "self assign"); CHECK(0 == memcmp(&u, sa, len), "bytes", "socket address bytes changed by copying"); }
  { memset(hb.get(), 0xee, len); e.copy_to(hsa); EQ(from_sa(hsa), "copy_to"); CHECK(0 == memcmp(hsa, sa, len), "bytes", "copy_to bytes differ"); memset(hb.get(), 0xee, len); CHECK(IPEndpoint::assign(hsa, &e.sa), "assign", "static assign false"); EQ(from_sa(hsa), "static assign"); }
  CHECK(e.is_valid() && IPEndpoint::is_valid(hsa) && e.is_ip4() == !want.six && e.is_ip6() == want.six && e.family() == (want.six ? AF_INET6 : AF_INET), "family", "endpoint family"); CHECK(e.size() == len && e.sa_size() == len && IPEndpoint::sa_size(hsa) == len, "size", "size %u sa_size %zu expected %zu", e.size(), e.sa_size(), len);
  CHECK(e.host_order_port() == want.port && e.network_order_port() == htons(uint16_t(want.port)) && IPEndpoint::host_order_port(hsa) == want.port && IPEndpoint::network_order_port(hsa) == htons(uint16_t(want.port)) && IPEndpoint::port(hsa) == htons(uint16_t(want.port)), "port-order", "port %u: host %u network %04x", want.port, e.host_order_port(), e.network_order_port());
  { auto sp = e.raw_addr(); CHECK(sp.size() == (want.six ? 16u : 4u), "raw", "raw_addr size %zu", sp.size()); in6_addr r6 = raw6(want.v); u32 r4 = htonl(u32(want.v)); CHECK(0 == memcmp(sp.data(), want.six ? static_cast<void *>(&r6) : static_cast<void *>(&r4), sp.size()), "raw", "raw_addr bytes"); }
  CHECK((e.ip4() != nullptr) == !want.six && (e.ip6() != nullptr) == want.six, "ip4ip6", "ip4()/ip6() pointers"); { IPEndpoint const &ce = e; CHECK(static_cast<void const *>(want.six ? static_cast<void const *>(ce.ip6()) : ce.ip4()) == &ce, "ip4ip6", "pointer value"); CHECK(static_cast<sockaddr const *>(ce) == &ce.sa, "ip4ip6", "sockaddr conversion"); }
  { uint16_t np = uint16_t(genport(rng)); IPEndpoint t(e); IPEndpoint::port(t) = htons(np); A w2 = want; w2.port = np; A g = from_ep(t); CHECK(g == w2, "set-port", "%s expected %s", desc(g).c_str(), desc(w2).c_str()); }
  // addresses
  IPAddr ad = want.six ? IPAddr(mk6(want.v)) : IPAddr(IP4Addr(u32(want.v))); { A w0 = want; w0.port = 0; auto eq0 = [&](IPEndpoint const &x, char const *w) { A g = from_ep(x); CHECK(g == w0, "addr", "%s: %s expected %s", w, desc(g).c_str(), desc(w0).c_str()); };
    IPEndpoint &t = fresh<IPEndpoint>(2, rng, ad); eq0(t, "IPEndpoint(IPAddr)"); t = e; t.assign(ad); A g = from_ep(t); g.port = 0; CHECK(g == w0, "addr", "assign(IPAddr)"); IPEndpoint &u = fresh<IPEndpoint>(3, rng); if (want.six) u.assign(mk6(want.v)); else u.assign(IP4Addr(u32(want.v))); eq0(u, "assign(IPxAddr)"); CHECK(IPAddr(e) == ad && IPAddr(&e.sa) == ad, "addr", "IPAddr(endpoint)"); }
  // services
  IPSrv srv(ad, in_port_t(want.port)); EQ(from_srv(srv), "IPSrv(IPAddr,port)"); IP4Srv v4; IP6Srv v6; if (want.six) v6 = IP6Srv(mk6(want.v), in_port_t(want.port)); else v4 = IP4Srv(IP4Addr(u32(want.v)), in_port_t(want.port));
  auto chk4 = [&](IP4Srv const &s, char const *w) { CHECK(val4(s.addr()) == want.v && s.host_order_port() == want.port && s.network_order_port() == htons(uint16_t(want.port)) && s.family() == AF_INET && val4(static_cast<IP4Addr const &>(s)) == want.v, "srv4", "%s: %s:%u expected %s", w, txt4(val4(s.addr())).c_str(), s.host_order_port(), desc(want).c_str()); };
  auto chk6 = [&](IP6Srv const &s, char const *w) { CHECK(val6(s.addr()) == want.v && s.host_order_port() == want.port && s.network_order_port() == htons(uint16_t(want.port)) && s.family() == AF_INET6 && val6(static_cast<IP6Addr const &>(s)) == want.v, "srv6", "%s: [%s]:%u expected %s", w, txt6(val6(s.addr())).c_str(), s.host_order_port(), desc(want).c_str()); };
  if (want.six) { chk6(v6, "ctor"); IP6Srv &t = fresh<IP6Srv>(4, rng, static_cast<sockaddr_in6 const *>(&s6)); chk6(t, "IP6Srv(sockaddr)"); IP6Srv u; CHECK(val6(u.addr()) == 0 && u.host_order_port() == 0, "srv6", "default"); u.assign(&s6); chk6(u, "assign(sockaddr)"); IP6Srv x; x.assign(mk6(want.v)); CHECK(x.host_order_port() == 0, "srv6", "assign(addr) port"); x.assign(in_port_t(want.port)); chk6(x, "assign(port)"); IP6Srv y; y.assign(in_port_t(want.port)).assign(mk6(want.v)); chk6(y, "assign(port).assign(addr)"); IP6Srv z; z.assign(mk6(want.v), in_port_t(want.port)); chk6(z, "assign(addr,port)"); }
  else { chk4(v4, "ctor"); IP4Srv &t = fresh<IP4Srv>(4, rng, static_cast<sockaddr_in const *>(&s4)); chk4(t, "IP4Srv(sockaddr)"); IP4Srv u; CHECK(val4(u.addr()) == 0 && u.host_order_port() == 0, "srv4", "default"); u.assign(&s4); chk4(u, "assign(sockaddr)"); IP4Srv x; x.assign(IP4Addr(u32(want.v))); CHECK(x.host_order_port() == 0, "srv4", "assign(addr) port"); x.assign(in_port_t(want.port)); chk4(x, "assign(port)"); IP4Srv y; y.assign(in_port_t(want.port)).assign(IP4Addr(u32(want.v))); chk4(y, "assign(port).assign(addr)"); IP4Srv z; z.assign(IP4Addr(u32(want.v)), in_port_t(want.port)); chk4(z, "assign(addr,port)"); }
  { IPSrv &d = fresh<IPSrv>(5, rng); CHECK(!d.is_valid() && d.family() == AF_UNSPEC && !d.is_ip4() && !d.is_ip6() && d.host_order_port() == 0 && d.network_order_port() == 0 && !d.addr().is_valid(), "srv-default", "default service is not invalid");
    IPSrv &a = fresh<IPSrv>(5, rng, hsa); EQ(from_srv(a), "IPSrv(sockaddr)"); IPSrv &b = fresh<IPSrv>(5, rng, e); EQ(from_srv(b), "IPSrv(endpoint)"); if (want.six) { IPSrv &c = fresh<IPSrv>(5, rng, static_cast<sockaddr_in6 const *>(&s6)); EQ(from_srv(c), "IPSrv(sockaddr_in6)"); IPSrv c2(mk6(want.v), in_port_t(want.port)); EQ(from_srv(c2), "IPSrv(IP6Addr,port)"); } else { IPSrv &c = fresh<IPSrv>(5, rng, static_cast<sockaddr_in const *>(&s4)); EQ(from_srv(c), "IPSrv(sockaddr_in)"); IPSrv c2(IP4Addr(u32(want.v)), in_port_t(want.port)); EQ(from_srv(c2), "IPSrv(IP4Addr,port)"); } }
  { A o = gen(rng); IPSrv t(o.six ? IPAddr(mk6(o.v)) : IPAddr(IP4Addr(u32(o.v))), in_port_t(o.port)); // overwrite whatever was there
    switch (rng.below(10)) { case 0: t.assign(hsa); break; case 1: t = hsa; break; case 2: if (want.six) t.assign(static_cast<sockaddr_in6 const *>(&s6)); else t.assign(static_cast<sockaddr_in const *>(&s4)); break; case 3: if (want.six) t = static_cast<sockaddr_in6 const *>(&s6); else t = static_cast<sockaddr_in const *>(&s4); break; case 4: t.assign(ad, in_port_t(want.port)); break;
      case 5: if (want.six) t = v6; else t = v4; break; case 6: if (want.six) t.assign(mk6(want.v), in_port_t(want.port)); else t.assign(IP4Addr(u32(want.v)), in_port_t(want.port)); break; case 7: t = srv; break; case 8: t.assign(ad); { A w2{want.six, want.v, o.port}; A g = from_srv(t); CHECK(g == w2, "srv-assign-addr", "assign(IPAddr) over %s: %s expected %s", desc(o).c_str(), desc(g).c_str(), desc(w2).c_str()); } t.assign(in_port_t(want.port)); break;
      default: if (want.six) t.assign(mk6(want.v)); else t.assign(IP4Addr(u32(want.v))); { A w2{want.six, want.v, o.port}; A g = from_srv(t); CHECK(g == w2, "srv-assign-addr", "assign(addr) over %s: %s expected %s", desc(o).c_str(), desc(g).c_str(), desc(w2).c_str()); } t.assign(in_port_t(want.port)); } EQ(from_srv(t), "service assignment"); }
  { IPEndpoint &t = fresh<IPEndpoint>(2, rng, srv); EQ(from_ep(t), "IPEndpoint(IPSrv)"); IPEndpoint &u = fresh<IPEndpoint>(3, rng); u.set_to_any(want.six ? AF_INET : AF_INET6); if (rng.flip()) u.assign(srv); else if (want.six) u.assign(v6); else u.assign(v4); EQ(from_ep(u), "assign(service)"); sockaddr const *us = u; CHECK(0 == memcmp(us, sa, len), "bytes", "endpoint assigned from a service has stray bytes"); }
  // invalid
  { IPEndpoint &t = fresh<IPEndpoint>(2, rng, IPSrv()); CHECK(!t.is_valid(), "invalid", "IPEndpoint(invalid service) is valid"); IPEndpoint &u = fresh<IPEndpoint>(2, rng, IPAddr()); CHECK(!u.is_valid() && u.host_order_port() == 0 && u.network_order_port() == 0 && !u.ip4() && !u.ip6() && u.raw_addr().empty(), "invalid", "IPEndpoint(invalid address)"); sockaddr x; memset(&x, 0xee, sizeof x); x.sa_family = AF_UNSPEC; IPEndpoint &v = fresh<IPEndpoint>(3, rng, static_cast<sockaddr const *>(&x)); CHECK(!v.is_valid() && v.family() == AF_UNSPEC, "invalid", "IPEndpoint(AF_UNSPEC)"); IPSrv &s = fresh<IPSrv>(5, rng, static_cast<sockaddr const *>(&x)); CHECK(!s.is_valid(), "invalid", "IPSrv(AF_UNSPEC)"); IPSrv &s2 = fresh<IPSrv>(5, rng, u); CHECK(!s2.is_valid(), "invalid", "IPSrv(invalid endpoint)"); IPSrv s3{IPAddr(), in_port_t(want.port)}; CHECK(!s3.is_valid() && s3.family() == AF_UNSPEC && s3.host_order_port() == 0, "invalid", "IPSrv(invalid address)");
    e2.invalidate(); CHECK(!e2.is_valid(), "invalid", "invalidate()"); IPEndpoint::invalidate(hsa); CHECK(!IPEndpoint::is_valid(hsa) && !IPEndpoint::is_valid(static_cast<sockaddr const *>(nullptr)), "invalid", "static invalidate"); bool threw = false; try { (void)IPEndpoint::port(hsa); } catch (std::domain_error &) { threw = true; } CHECK(threw, "invalid", "port() of an invalid address did not throw"); CHECK(IPEndpoint::host_order_port(hsa) == 0 && IPEndpoint::network_order_port(hsa) == 0, "invalid", "ports of invalid"); }
  { int f = want.six ? AF_INET6 : AF_INET; IPEndpoint &t = fresh<IPEndpoint>(2, rng); t = e; t.set_to_any(f); A g = from_ep(t); CHECK(g.six == want.six && g.v == 0 && g.port == 0 && t.is_any() && !t.is_loopback(), "any", "set_to_any"); t = e; t.set_to_loopback(f); g = from_ep(t); CHECK(g.six == want.six && g.v == (want.six ? u128(1) : u128(0x7f000001)) && g.port == 0 && t.is_loopback() && !t.is_any(), "loopback", "set_to_loopback"); }
  { bool any = want.v == 0, lo = want.six ? want.v == 1 : (want.v >> 24) == 127; CHECK(e.is_any() == any && e.is_loopback() == lo, "classify", "%s any %d loopback %d", desc(want).c_str(), e.is_any(), e.is_loopback()); CHECK(e.is_multicast() == ad.is_multicast() && e.is_link_local() == ad.is_link_local() && e.is_private() == ad.is_private() && IPEndpoint::is_multicast(sa) == ad.is_multicast() && IPEndpoint::is_link_local(sa) == ad.is_link_local() && IPEndpoint::is_private(sa) == ad.is_private(), "classify", "%s endpoint and address classification differ", desc(want).c_str()); }
}
// Ordering and equality.
template <class X, class Y> static void cmp6(X const &x, Y const &y, int c, char const *what) { CHECK((x == y) == (c == 0) && (x != y) == (c != 0) && (x < y) == (c < 0) && (x <= y) == (c <= 0) && (x > y) == (c > 0) && (x >= y) == (c >= 0), "order", "%s: expected sign %d, == %d != %d < %d <= %d > %d >= %d", what, c, x == y, x != y, x < y, x <= y, x > y, x >= y); }
SUB(order, 200000, 8000000, 0) {
  A a = gen(rng), b = gen(rng); if (rng.chance(2, 3)) b.six = a.six, b.v = rng.chance(2, 3) ? a.v : (a.six ? a.v + u128(rng.in(-1, 1)) : u128(u32(a.v + u128(rng.in(-1, 1))))); else if (!b.six) b.v = u32(b.v); if (rng.chance(1, 3)) b.port = a.port; if (!b.six) b.v = u32(b.v); vh::T("%s vs %s", desc(a).c_str(), desc(b).c_str()); EV(a.six == b.six ? "same_family" : "mixed_family");
  auto srv = [](A const &x) { return IPSrv(x.six ? IPAddr(mk6(x.v)) : IPAddr(IP4Addr(u32(x.v))), in_port_t(x.port)); }; int c = a.v < b.v ? -1 : a.v > b.v ? 1 : a.port < b.port ? -1 : a.port > b.port ? 1 : 0; vh::obs(u64(c + 1) + 3 * a.six + 6 * b.six);
  IPSrv A_ = srv(a), B_ = srv(b);
  if (a.six && b.six) { IP6Srv x(mk6(a.v), in_port_t(a.port)), y(mk6(b.v), in_port_t(b.port)); cmp6(x, y, c, "IP6Srv"); cmp6(A_, y, c, "IPSrv vs IP6Srv"); cmp6(x, B_, c, "IP6Srv vs IPSrv"); }
  else if (!a.six && !b.six) { IP4Srv x(IP4Addr(u32(a.v)), in_port_t(a.port)), y(IP4Addr(u32(b.v)), in_port_t(b.port)); cmp6(x, y, c, "IP4Srv"); cmp6(A_, y, c, "IPSrv vs IP4Srv"); cmp6(x, B_, c, "IP4Srv vs IPSrv"); }
  else if (a.six) { IP4Srv y(IP4Addr(u32(b.v)), in_port_t(b.port)); CHECK(!(A_ == y) && A_ != y && !(y == A_) && y != A_, "mixed", "IPv6 service equals IPv4 service"); }
  else { IP6Srv y(mk6(b.v), in_port_t(b.port)); CHECK(!(A_ == y) && A_ != y && !(y == A_) && y != A_, "mixed", "IPv4 service equals IPv6 service"); }
  // services against addresses: address only
  if (b.six) { IP6Addr t = mk6(b.v); bool e = a.six && a.v == b.v; CHECK((A_ == t) == e && (t == A_) == e && (A_ != t) == !e && (t != A_) == !e, "addr-eq", "service vs address"); } else { IP4Addr t(u32(b.v)); bool e = !a.six && a.v == b.v; CHECK((A_ == t) == e && (t == A_) == e && (A_ != t) == !e && (t != A_) == !e, "addr-eq", "service vs address"); }
}
// Text.
struct Ref { Verdict ok; A v; bool strict = false; bool tail = false; }; // strict: a standard address form, the family neutral types have to accept it. tail: blanks after the port or bracket, services reject that.
static Ref refsrv(string_view s) { // reference parser
  Ref bad{NO, {}}; bool odd = false; string_view t = trim_(s); if (t.size() != s.size()) odd = true; if (t.empty()) return bad; string_view host, port; bool has = false, br = false;
  if (t[0] == '[') { size_t k = t.find(']'); if (k == t.npos) return bad; host = t.substr(1, k - 1); t.remove_prefix(k + 1); br = true; if (!t.empty()) { if (t[0] != ':') return bad; port = t.substr(1); has = true; } }
  else { size_t k = t.find(':'); if (k != t.npos && t.find(':', k + 1) == t.npos) { host = t.substr(0, k); port = t.substr(k + 1); has = true; } else host = t; }
  u64 p = 0; if (has) { if (port.empty()) return bad; for (char c : port) { if (c < '0' || c > '9') return bad; } bool lead = port.size() > 1 && port[0] == '0'; for (char c : port) if (p < 100000000) p = p * 10 + u64(c - '0'); if (lead) { odd = true; u64 o = 0; bool good = true; for (char c : port) { if (c > '7') good = false; if (o < 100000000) o = o * 8 + u64(c - '0'); } (void)good; p = ~0ull; (void)o; } else if (p > 65535) return bad; }
  for (char c : host) if (sp_(c)) odd = true; if (host.find_first_of("[]") != host.npos) return bad; if (host.empty()) return bad;
  Ref r; r.tail = sp_(s.back()) && (has || br); r.v.port = unsigned(p); if (host.find(':') != host.npos) { P6 q = ref6(host); if (q.ok == NO) return bad; r.v.six = true; r.v.v = q.v; r.ok = q.ok == ANY || odd ? ANY : YES; r.strict = r.ok == YES; if (has && !br) return bad; }
  else { P4 q = ref4(host); if (q.ok == NO) return bad; r.v.six = false; r.v.v = q.v; r.ok = q.ok == ANY || odd || br ? ANY : YES; in_addr n; r.strict = r.ok == YES && inet_pton(AF_INET, string(host).c_str(), &n) == 1; } return r;
}
static bool okv(Ref const &r, A const &g) { return r.ok != NO && g.six == r.v.six && g.v == r.v.v && (r.v.port == ~0u || g.port == r.v.port); }
static void text_case(Rng &rng, string const &t) {
  vh::HText h(t); Ref r = refsrv(t); vh::T("%s", vh::esc(t).c_str()); vh::obs(t); if (r.ok == YES) EV("valid_text"); else if (r.ok == NO) EV("invalid_text"); else EV("unspecified_text"); (void)rng;
  { IPSrv s; bool ok = s.load(TextView(h.view())); if (r.tail) { EV("trailing_blank"); CHECK(!ok, "srv-trailing", "IPSrv::load(%s) accepted", vh::esc(t).c_str()); } CHECK(ok ? r.ok != NO : !r.strict, "srv-load", "IPSrv::load(%s) = %d", vh::esc(t).c_str(), ok); if (ok) { A g = from_srv(s); CHECK(okv(r, g), "srv-value", "%s -> %s expected %s", vh::esc(t).c_str(), desc(g).c_str(), desc(r.v).c_str()); } else CHECK(!s.is_valid(), "srv-load", "failed load left a valid service"); IPSrv &c = fresh<IPSrv>(5, rng, TextView(h.view())); CHECK(c.is_valid() == ok, "srv-ctor", "IPSrv(%s) valid %d, load %d", vh::esc(t).c_str(), c.is_valid(), ok); if (ok) { A g = from_srv(c); CHECK(okv(r, g), "srv-value", "ctor value"); } }
  { IP4Srv s; bool ok = s.load(TextView(h.view())); bool can = r.ok != NO && !r.v.six, must = r.ok == YES && !r.v.six; CHECK(!ok || !r.tail, "srv4-trailing", "IP4Srv::load(%s) accepted", vh::esc(t).c_str()); CHECK(ok ? can : !must, "srv4-load", "IP4Srv::load(%s) = %d", vh::esc(t).c_str(), ok); A g{false, val4(s.addr()), s.host_order_port()}; if (ok) CHECK(okv(r, g), "srv4-value", "%s -> %s", vh::esc(t).c_str(), desc(g).c_str()); IP4Srv c(TextView(h.view())); if (!ok) CHECK(val4(c.addr()) == 0 && c.host_order_port() == 0, "srv4-ctor", "IP4Srv(%s) = %s:%u", vh::esc(t).c_str(), txt4(val4(c.addr())).c_str(), c.host_order_port()); else CHECK(c == s, "srv4-ctor", "constructor differs from load"); }
  { IP6Srv s; bool ok = s.load(TextView(h.view())); bool can = r.ok != NO && r.v.six, must = r.ok == YES && r.v.six; CHECK(!ok || !r.tail, "srv6-trailing", "IP6Srv::load(%s) accepted", vh::esc(t).c_str()); CHECK(ok ? can : !must, "srv6-load", "IP6Srv::load(%s) = %d", vh::esc(t).c_str(), ok); A g{true, val6(s.addr()), s.host_order_port()}; if (ok) CHECK(okv(r, g), "srv6-value", "%s -> %s", vh::esc(t).c_str(), desc(g).c_str()); IP6Srv c(TextView(h.view())); if (!ok) CHECK(val6(c.addr()) == 0 && c.host_order_port() == 0, "srv6-ctor", "IP6Srv(%s)", vh::esc(t).c_str()); else CHECK(c == s, "srv6-ctor", "constructor differs from load"); }
  { IPEndpoint e; bool ok = e.parse(h.view()); CHECK(ok ? r.ok != NO : !r.strict, "ep-parse", "IPEndpoint::parse(%s) = %d", vh::esc(t).c_str(), ok); if (ok) { A g = from_ep(e); CHECK(okv(r, g), "ep-value", "%s -> %s", vh::esc(t).c_str(), desc(g).c_str()); } IPEndpoint &c = fresh<IPEndpoint>(1, rng, h.view()); CHECK(c.is_valid() == ok, "ep-ctor", "IPEndpoint(%s) valid %d parse %d", vh::esc(t).c_str(), c.is_valid(), ok); if (ok) CHECK(from_ep(c) == from_ep(e), "ep-ctor", "constructor differs from parse"); }
  { string_view host("?"), port("?"), rest("?"); bool ok = IPEndpoint::tokenize(h.view(), &host, &port, &rest); auto in = [&](string_view v) { return v.empty() || (v.data() >= h.data() && v.data() + v.size() <= h.data() + h.size()); }; CHECK(in(host) && in(port) && in(rest), "tokenize-bounds", "tokenize(%s) produced text outside the source", vh::esc(t).c_str()); CHECK(ok == !host.empty(), "tokenize", "tokenize(%s) = %d with host %s", vh::esc(t).c_str(), ok, vh::esc(host).c_str()); for (char c : port) CHECK(c >= '0' && c <= '9', "tokenize", "port %s", vh::esc(port).c_str());
    if (r.ok == YES) { CHECK(ok && rest.empty(), "tokenize", "tokenize(%s) = %d rest %s", vh::esc(t).c_str(), ok, vh::esc(rest).c_str()); } CHECK(IPEndpoint::tokenize(h.view()) == ok, "tokenize", "null arguments differ"); string_view o; if (rng.flip()) { IPEndpoint::tokenize(h.view(), &o); CHECK(o == host, "tokenize", "host only"); } else { IPEndpoint::tokenize(h.view(), nullptr, &o); CHECK(o == port, "tokenize", "port only"); } }
}
static string gen_text(Rng &rng) { string a; bool six = rng.flip(); a = six ? gen6_text(rng) : gen4_text(rng); string p; switch (rng.below(8)) { case 0: break; case 1: p = std::to_string(rng.below(200000)); break; case 2: p = std::to_string(rng.u() >> rng.below(64)); break; case 3: p = rng.pick<char const *>({"65535", "65536", "0", "00", "080", "010", "99999", "18446744073709551696", "4294967376", "+80", "-1", "0x50", "80 ", " 80", "80x", "8:0", ":", ""}); break; default: p = std::to_string(genport(rng)); }
  string t; switch (rng.below(6)) { case 0: t = a; break; case 1: t = "[" + a + "]"; break; case 2: t = a + ":" + p; break; case 3: t = rng.pick<char const *>({"[", "]", "[[", "", "[]"}) + a + rng.pick<char const *>({"]", "", "]]", "]:", "]]:"}) + p; break; default: t = six ? "[" + a + "]:" + p : a + ":" + p; } if (rng.chance(1, 10)) t = string(rng.pick<char const *>({" ", "\t", "\n ", "  "})) + t; if (rng.chance(1, 10)) t += rng.pick<char const *>({" ", "\t", "x", "/", "\n ", ".", ":", "]"}); return t; }
SUB(text_gen, 150000, 10000000, 0) { text_case(rng, gen_text(rng)); }
SUB(text_mut, 150000, 10000000, 0) { string t = gen_text(rng); mutate(rng, t, "0123456789abcdefx:.[]/- \tg"); text_case(rng, t); }
SUB(text_short, 60000, 3000000, 0) { string t; static const char AL[] = "01:.[] af9x\0-"; for (int n = int(rng.below(9)); n; --n) t += AL[rng.below(sizeof AL - 1)]; text_case(rng, t); }
// Round trip.
SUB(roundtrip, 100000, 6000000, 0) {
  A want = gen(rng); string base = want.six ? "[" + txt6(want.v) + "]" : txt4(u32(want.v)), plain = want.six ? txt6(want.v) : base; string full = base + ":" + std::to_string(want.port); vh::T("%s", full.c_str()); vh::obs(full); EV("roundtrip"); IPAddr ad = want.six ? IPAddr(mk6(want.v)) : IPAddr(IP4Addr(u32(want.v))); IPSrv srv(ad, in_port_t(want.port)); IPEndpoint ep(srv); if (want.six) EQ(from_srv(IPSrv(IP6Srv(mk6(want.v), in_port_t(want.port)))), "IPSrv(IP6Srv)"); else EQ(from_srv(IPSrv(IP4Srv(IP4Addr(u32(want.v)), in_port_t(want.port)))), "IPSrv(IP4Srv)"); string stext = want.port ? full : plain;
  vh::eq_text(show(ep), full, "ep-print", "endpoint"); vh::eq_text(show(&ep.sa), full, "sa-print", "sockaddr"); vh::eq_text(show(srv), stext, "srv-print", "service"); if (want.six) vh::eq_text(show(IP6Srv(srv)), stext, "srv-print", "IP6Srv"); else vh::eq_text(show(IP4Srv(srv)), stext, "srv-print", "IP4Srv");
  vh::eq_text(show(ep, "{::a}"), plain, "ep-print", "{::a}"); vh::eq_text(show(ep, "{::p}"), std::to_string(want.port), "ep-print", "{::p}"); vh::eq_text(show(ep, "{::f}"), want.six ? "ipv6" : "ipv4", "ep-print", "{::f}"); vh::eq_text(show(ep, "{::ap}"), full, "ep-print", "{::ap}"); vh::eq_text(show(ep, "{::apf}"), full + (want.six ? " ipv6" : " ipv4"), "ep-print", "{::apf}"); vh::eq_text(show(ad, "{::f}"), want.six ? "ipv6" : "ipv4", "addr-print", "{::f}"); vh::eq_text(show(ad, "{::af}"), plain + (want.six ? " ipv6" : " ipv4"), "addr-print", "{::af}"); vh::eq_text(show(ep, "{::af}"), plain + (want.six ? " ipv6" : " ipv4"), "ep-print", "{::af}");
  for (string const &t : {show(ep), show(srv)}) { vh::HText h(t); IPSrv s; CHECK(s.load(TextView(h.view())), "rt-load", "printed text %s is not parsed", t.c_str()); EQ(from_srv(s), "print/parse service"); IPEndpoint e; CHECK(e.parse(h.view()), "rt-load", "printed text %s is not parsed", t.c_str()); EQ(from_ep(e), "print/parse endpoint"); IPEndpoint e3(h.view()); EQ(from_ep(e3), "IPEndpoint(text)"); }
}
// Default ports, and the result of copying raw addresses.
SUB(defaults, 4000, 100000, 0) {
  A a = gen(rng); IP6Addr six = mk6(a.six ? a.v : u128(a.v) << 40 | 1); IP4Addr four{u32(a.v)}; IP6Srv s6{six}; IP4Srv s4{four}; CHECK(s6.host_order_port() == 0 && s4.host_order_port() == 0 && s6.addr() == six && s4.addr() == four, "default-port", "family services: %u %u", s6.host_order_port(), s4.host_order_port());
  IPSrv g6{six}, g4{four}, ga{IPAddr(six)}, gb{IPAddr(four)}; CHECK(g6.host_order_port() == 0 && g4.host_order_port() == 0 && ga.host_order_port() == 0 && gb.host_order_port() == 0 && g6.addr() == IPAddr(six) && g4.addr() == IPAddr(four) && from_srv(ga) == from_srv(g6) && from_srv(gb) == from_srv(g4), "default-port", "services: %u %u %u %u", g6.host_order_port(), g4.host_order_port(), ga.host_order_port(), gb.host_order_port());
  IPEndpoint src, dst; src.assign(a.six ? IPSrv(mk6(a.v), in_port_t(a.port)) : IPSrv(IP4Addr(u32(a.v)), in_port_t(a.port))); memset(static_cast<void *>(&dst), 0xa5, sizeof dst); CHECK(IPEndpoint::assign(&dst.sa, &src.sa), "raw-assign", "copying a valid address reports failure"); { A g = from_ep(dst); CHECK(g == a, "raw-assign", "%s expected %s", desc(g).c_str(), desc(a).c_str()); }
  sockaddr_storage none; memset(&none, 0x77, sizeof none); none.ss_family = sa_family_t(rng.pick({AF_UNSPEC, AF_UNIX, 77, 0xffff})); CHECK(!IPEndpoint::assign(&dst.sa, reinterpret_cast<sockaddr const *>(&none)) && !dst.is_valid(), "raw-assign", "copying an address of family %u reports success or leaves a valid address", none.ss_family); EV("defaults"); vh::obs(u64(a.v));
}
// The parts of a socket address which are neither family, address nor port survive copying between endpoints and socket addresses.
SUB(whole_sockaddr, 20000, 500000, 0) {
  A a = gen(rng); sockaddr_in s4 = sin4(a); sockaddr_in6 s6 = sin6(a); for (auto &c : s4.sin_zero) c = u8(rng.u()); s6.sin6_flowinfo = u32(rng.u()); s6.sin6_scope_id = rng.chance(1, 8) ? 0 : u32(rng.u()); size_t len = a.six ? sizeof s6 : sizeof s4; void const *raw = a.six ? static_cast<void const *>(&s6) : &s4; std::unique_ptr<char[]> hb(new char[len]); memcpy(hb.get(), raw, len); auto sa = reinterpret_cast<sockaddr const *>(hb.get()); vh::T("%s", desc(a).c_str());
  auto same = [&](void const *p, char const *w) { CHECK(0 == memcmp(p, raw, len), "bytes", "%s changed the socket address", w); EV("socket addresses compared"); };
  IPEndpoint &e = fresh<IPEndpoint>(0, rng, sa); same(&e, "IPEndpoint(sockaddr)"); IPEndpoint &f = fresh<IPEndpoint>(1, rng); if (rng.flip()) f.set_to_loopback(rng.flip() ? AF_INET : AF_INET6); f.assign(sa); same(&f, "assign(sockaddr)"); IPEndpoint &g = fresh<IPEndpoint>(2, rng); if (a.six) g.assign(&s6); else g.assign(&s4); same(&g, "assign(sockaddr_inX)"); if (a.six) { IPEndpoint &h = fresh<IPEndpoint>(3, rng, static_cast<sockaddr_in6 const *>(&s6)); same(&h, "IPEndpoint(sockaddr_in6)"); } else { IPEndpoint &h = fresh<IPEndpoint>(3, rng, static_cast<sockaddr_in const *>(&s4)); same(&h, "IPEndpoint(sockaddr_in)"); }
  IPEndpoint &c = fresh<IPEndpoint>(3, rng, e); same(&c, "copy"); IPEndpoint &d = fresh<IPEndpoint>(2, rng); d = c; same(&d, "operator="); d = *&d; same(&d, "self assignment"); d.assign(&d.sa); same(&d, "self assign"); std::unique_ptr<char[]> ob(new char[len]); memset(ob.get(), 0xee, len); auto out = reinterpret_cast<sockaddr *>(ob.get()); CHECK(&d.copy_to(out) == &d, "return", "copy_to"); same(out, "copy_to"); memset(ob.get(), 0xee, len); CHECK(IPEndpoint::assign(out, &d.sa), "assign", "static assign"); same(out, "static assign"); IPEndpoint::assign(out, out); same(out, "static self assign");
  { A q = from_ep(e); CHECK(q == a, "convert", "%s expected %s", desc(q).c_str(), desc(a).c_str()); A s = from_srv(IPSrv(sa)); CHECK(s == a, "convert", "service %s expected %s", desc(s).c_str(), desc(a).c_str()); }
  IPEndpoint none; IPEndpoint t(e); none.copy_to(&t.sa); CHECK(!t.is_valid() && t.host_order_port() == 0, "invalid", "copying an invalid endpoint leaves a valid address"); t = e; t = none; CHECK(!t.is_valid(), "invalid", "assigning an invalid endpoint leaves a valid address"); IPEndpoint u(none); CHECK(!u.is_valid(), "invalid", "copy of an invalid endpoint"); vh::obs(u64(a.v) ^ s6.sin6_scope_id);
}
SUB(families, 300, 300, vh::EXHAUSTIVE) {
  u64 k = vh::S().idx; sa_family_t f = sa_family_t(k < 256 ? k : 65535 - (k - 256)); string_view want = f == AF_INET ? "ipv4" : f == AF_INET6 ? "ipv6" : f == AF_UNIX ? "unix" : f == AF_UNSPEC ? "unspec" : "unknown"; vh::eq_text(IPEndpoint::family_name(f), want, "family-name", "family " + std::to_string(f)); vh::obs(k); EV("families");
  sockaddr_storage ss; memset(&ss, 0, sizeof ss); ss.ss_family = f; auto sa = reinterpret_cast<sockaddr const *>(&ss); size_t sz = f == AF_INET ? sizeof(sockaddr_in) : f == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr); CHECK(IPEndpoint::sa_size(sa) == sz, "size", "sa_size for family %u is %zu", f, IPEndpoint::sa_size(sa)); bool ip = f == AF_INET || f == AF_INET6; CHECK(IPEndpoint::is_valid(sa) == ip, "valid", "family %u", f);
  IPEndpoint &e = fresh<IPEndpoint>(1, rng); e.invalidate(); e.sa.sa_family = f; CHECK(size_t(e.size()) == sz && e.sa_size() == sz && e.is_valid() == ip && e.family() == f, "size", "family %u", f); if (!ip) CHECK(e.raw_addr().empty() && !e.ip4() && !e.ip6() && e.host_order_port() == 0 && IPEndpoint::host_order_port(sa) == 0, "raw", "family %u", f);
}
