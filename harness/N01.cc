#include "ip.h"
// N01: address text. Reference: inet_pton / RFC 5952 rendering / explicit numeric grammar.
static void check4(string_view raw) {
  vh::HText h(raw); auto r = ref4(raw); IP4Addr a{in_addr_t(0x01020304)}; bool ok = a.load(h); EV(ok ? "ip4_accept" : "ip4_reject"); vh::T("ip4 %s -> %d %s", vh::esc(raw).c_str(), ok, txt4(val4(a)).c_str());
  if (r.ok == YES) CHECK(ok, "ip4-valid", "valid text %s rejected", vh::esc(raw).c_str()); if (r.ok == NO) CHECK(!ok, "ip4-invalid", "invalid text %s accepted as %s", vh::esc(raw).c_str(), txt4(val4(a)).c_str());
  if (ok) CHECK(val4(a) == r.v, "ip4-value", "%s parsed as %s expected %s", vh::esc(raw).c_str(), txt4(val4(a)).c_str(), txt4(r.v).c_str()); 
  IP4Addr c{string_view(h)}; CHECK(val4(c) == (ok ? val4(a) : 0), "ip4-construct", "construct from %s gives %s", vh::esc(raw).c_str(), txt4(val4(c)).c_str());
  in_addr n; string z(raw); if (z.find('\0') == z.npos && inet_pton(AF_INET, z.c_str(), &n) == 1) { CHECK(ok && val4(a) == ntohl(n.s_addr), "ip4-pton", "standard text %s", vh::esc(raw).c_str()); EV("ip4_standard"); }
  vh::obs(ok); vh::obs(val4(a));
}
static void check6(string_view raw) {
  vh::HText h(raw); auto r = ref6(raw); IP6Addr a = mk6(0x0102); bool ok = a.load(h); EV(ok ? "ip6_accept" : "ip6_reject"); vh::T("ip6 %s -> %d %s", vh::esc(raw).c_str(), ok, txt6(val6(a)).c_str());
  if (r.ok == YES) CHECK(ok, "ip6-valid", "valid text %s rejected", vh::esc(raw).c_str()); if (r.ok == NO) CHECK(!ok, "ip6-invalid", "invalid text %s accepted as %s", vh::esc(raw).c_str(), txt6(val6(a)).c_str());
  if (ok) CHECK(val6(a) == r.v, "ip6-value", "%s parsed as %s expected %s", vh::esc(raw).c_str(), txt6(val6(a)).c_str(), txt6(r.v).c_str());
  IP6Addr c{string_view(h)}; CHECK(val6(c) == (ok ? val6(a) : 0), "ip6-construct", "construct from %s gives %s", vh::esc(raw).c_str(), txt6(val6(c)).c_str());
  vh::obs(ok); vh::obs(u64(val6(a)));
}
static void check_any(string_view raw) { // family neutral
  vh::HText h(raw); auto r4 = ref4(raw); auto r6 = ref6(raw); IPAddr a; bool ok = a.load(h); EV(ok ? "ip_accept" : "ip_reject"); CHECK(ok == a.is_valid(), "ip-valid-state", "load %s returned %d but is_valid %d", vh::esc(raw).c_str(), ok, a.is_valid());
  string z(trim_(raw)); in_addr n; bool std4 = z.find('\0') == z.npos && inet_pton(AF_INET, z.c_str(), &n) == 1; bool std6 = r6.ok == YES;
  if (std4) CHECK(ok && a.is_ip4() && val4(a.ip4()) == ntohl(n.s_addr), "ip-family", "standard IPv4 text %s", vh::esc(raw).c_str());
  { string_view tt = trim_(raw); size_t dot = tt.find('.'); if (r4.ok == YES && dot != tt.npos && dot <= 4) { EV("ip_numeric_form"); CHECK(ok && a.is_ip4() && val4(a.ip4()) == r4.v, "ip-family", "numeric IPv4 text %s", vh::esc(raw).c_str()); } } // octal and hexadecimal octets
  if (std6) CHECK(ok && a.is_ip6() && val6(a.ip6()) == r6.v, "ip-family", "standard IPv6 text %s", vh::esc(raw).c_str());
  if (ok) { if (a.is_ip4()) CHECK(r4.ok != NO && val4(a.ip4()) == r4.v, "ip-invalid", "%s accepted as IPv4 %s", vh::esc(raw).c_str(), txt4(val4(a.ip4())).c_str()); else CHECK(r6.ok != NO && val6(a.ip6()) == r6.v, "ip-invalid", "%s accepted as IPv6 %s", vh::esc(raw).c_str(), txt6(val6(a.ip6())).c_str()); }
  CHECK(IPAddr{string_view(h)} == a, "ip-construct", "construct from %s differs from load", vh::esc(raw).c_str()); IPAddr b{IP4Addr(in_addr_t(77))}; bool ok2 = b.load(h); CHECK(ok2 == ok && b == a, "ip-reload", "loading %s into an object holding an address", vh::esc(raw).c_str()); IPAddr c{mk6(~u128(0))}; CHECK(c.load(h) == ok && c == a, "ip-reload", "loading %s into an object holding an IPv6 address", vh::esc(raw).c_str());
  vh::obs(ok); vh::obs(a.family());
}
static void check_all(string_view t) { check4(t); check6(t); check_any(t); }
static void pad(Rng &rng, string &t) { if (rng.chance(1, 6)) t.insert(0, rng.pick({" ", "\t", "  \n"})); if (rng.chance(1, 6)) t += rng.pick({" ", "\t", "\r\n"}); }
SUB(text4, 150000, 6000000, 0) { string t = gen4_text(rng); pad(rng, t); check_all(t); }
SUB(text4_mutated, 200000, 8000000, 0) { string t = gen4_text(rng); mutate(rng, t, "0123456789.xXabf:-+[] 89"); if (rng.chance(1, 8)) pad(rng, t); check_all(t); }
SUB(text6, 150000, 6000000, 0) { string t = gen6_text(rng); if (rng.chance(1, 5)) t = "[" + t + "]"; pad(rng, t); check_all(t); }
SUB(text6_mutated, 250000, 10000000, 0) { string t = gen6_text(rng); if (rng.chance(1, 5)) t = "[" + t + "]"; mutate(rng, t, ":::0123fFgG.x-+[] /%"); if (rng.chance(1, 8)) pad(rng, t); check_all(t); }
SUB(junk, 100000, 4000000, 0) { string t(rng.size(14), 0); string_view al = "0123456789abcdefx:.[] -+/"; for (auto &c : t) c = rng.chance(1, 12) ? char(rng.u()) : al[rng.below(al.size())]; check_all(t); }
// Exhaustive short texts over the structural alphabet.
SUB(short_texts, 7 + 49 + 343 + 2401 + 16807 + 117649, 7 + 49 + 343 + 2401 + 16807 + 117649 + 823543, vh::EXHAUSTIVE) { static char const AL[] = ":.0a1[]"; u64 k = vh::S().idx; string t; u64 n = 7; int len = 1; while (k >= n) { k -= n; n *= 7; ++len; } for (int i = 0; i < len; ++i) { t += AL[k % 7]; k /= 7; } check_all(t); }
// Element structure: every count of elements and every position of compression / emptiness.
SUB(shapes6, 3 * 12 * 12 * 12, 3 * 12 * 12 * 12, vh::EXHAUSTIVE) { u64 k = vh::S().idx; int n = int(k % 12); k /= 12; int e1 = int(k % 12); k /= 12; int e2 = int(k % 12); k /= 12; string t; static const char *Q[] = {"a", "0", "1234"}; for (int i = 0; i < n; ++i) { if (i) t += ':'; if (i != e1 && i != e2) t += Q[k]; } check_all(t); check_all(":" + t); check_all(t + ":"); check_all("::" + t); check_all(t + "::"); check_all("[" + t + "]"); }
SUB(quads, 65536, 65536, vh::EXHAUSTIVE) { unsigned q = unsigned(vh::S().idx); char b[64]; for (int pos = 0; pos < 8; pos += 1 + int(rng.below(4))) { u128 v = u128(q) << (16 * pos); string s = show(mk6(v)); vh::eq_text(s, txt6(v), "print6", "address"); check6(s); } snprintf(b, sizeof b, "%x::%X", q, q); check6(b); snprintf(b, sizeof b, "%x%x::", q, q & 15); check6(b); snprintf(b, sizeof b, "%u.%u.%u.%u", q & 255, q >> 8, q % 300, q % 257); check4(b); snprintf(b, sizeof b, "0%o.%u.0x%x", q % 513, q & 255, q); check4(b); }
// ---- printing
static void round4(u32 v) {
  IP4Addr a{in_addr_t(v)}; string s = show(a); vh::eq_text(s, txt4(v), "print4", "IP4Addr"); IP4Addr b; vh::HText h(s); CHECK(b.load(h) && b == a, "round4", "%s does not parse back", s.c_str());
  IPAddr g{a}; vh::eq_text(show(g), s, "print4", "IPAddr"); IPAddr p; CHECK(p.load(h) && p == g && p.is_ip4(), "round4", "IPAddr %s", s.c_str()); char b3[32]; snprintf(b3, sizeof b3, "%03u.%03u.%03u.%03u", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255); vh::eq_text(show(a, "{::=}"), b3, "print4-aligned", s); snprintf(b3, sizeof b3, "%3u.%3u.%3u.%3u", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255); vh::eq_text(show(g, "{:: =}"), b3, "print4-aligned", s); snprintf(b3, sizeof b3, "%x.%x.%x.%x", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255); vh::eq_text(show(a, "{:x}"), b3, "print4-hex", s); 
  std::string o; { swoc::LocalBufferWriter<16> w; w.print("{}", a); vh::eq_text(w.view(), string_view(s).substr(0, 16), "print4", "bounded"); } vh::obs(s); EV("print4");
}
static void round6(u128 v) {
  IP6Addr a = mk6(v); string s = show(a); vh::eq_text(s, txt6(v), "print6", hex128(v)); in6_addr n; CHECK(inet_pton(AF_INET6, s.c_str(), &n) == 1 && num6(n) == v, "print6-pton", "%s printed as %s", hex128(v).c_str(), s.c_str());
  IP6Addr b; vh::HText h(s); CHECK(b.load(h) && b == a, "round6", "%s does not parse back", s.c_str()); IPAddr g{a}; vh::eq_text(show(g), s, "print6", "IPAddr"); IPAddr p; CHECK(p.load(h) && p == g && p.is_ip6(), "round6", "IPAddr %s", s.c_str());
  string f = show(a, "{::=}"); vh::eq_text(f, full6(v, true), "print6-aligned", s); CHECK(b.load(f) && b == a, "round6", "%s does not parse back", f.c_str()); string X = show(a, "{:X}"); { string u = s; for (auto &c : u) c = char(toupper(c)); vh::eq_text(X, u, "print6-upper", s); } CHECK(b.load(X) && b == a, "round6", "%s does not parse back", X.c_str());
  { swoc::LocalBufferWriter<12> w; w.print("{}", a); vh::eq_text(w.view(), string_view(s).substr(0, 12), "print6", "bounded"); } vh::obs(s); EV("print6");
}
SUB(print4, 60000, 3000000, 0) { round4(gen4(rng)); }
SUB(print6, 100000, 5000000, 0) { round6(gen6(rng)); }
SUB(print6_zero_runs, 256 * 3, 256 * 3, vh::EXHAUSTIVE) { u64 k = vh::S().idx; u128 v = 0; static const u32 Q[] = {1, 0xffff, 0x10}; for (int i = 0; i < 8; ++i) v = v << 16 | ((k >> i & 1) ? Q[k >> 8] : 0); round6(v); check_all(full6(v)); check_all(full6(v, true, true)); check_all("[" + txt6(v) + "]"); }
SUB(print4_octets, 256 * 4, 256 * 4, vh::EXHAUSTIVE) { u64 k = vh::S().idx; round4(u32(k & 255) << (8 * (k >> 8))); check_all(txt4(u32(k & 255) << (8 * (k >> 8)))); }
