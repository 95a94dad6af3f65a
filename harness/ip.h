// Shared reference helpers for the IP address checks (N01-N05). Nothing here uses the library except mk6/val6 conversions through in6_addr.
#pragma once
#include "vh.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include "swoc/TextView.h"
#include "swoc/swoc_ip.h"
#include "swoc/bwf_ip.h"
#include "swoc/bwf_std.h"
using swoc::IP4Addr; using swoc::IP6Addr; using swoc::IPAddr; using swoc::IPMask; using swoc::TextView; using swoc::IP4Range; using swoc::IP6Range; using swoc::IPRange; using swoc::IP4Net; using swoc::IP6Net; using swoc::IPNet;
using std::string; using std::string_view; using vh::u8; using vh::u32; using vh::u64; using vh::u128; using vh::Rng;
static inline in6_addr raw6(u128 v) { in6_addr a; for (int i = 15; i >= 0; --i) { a.s6_addr[i] = u8(v); v >>= 8; } return a; }
static inline u128 num6(in6_addr const &a) { u128 v = 0; for (int i = 0; i < 16; ++i) v = v << 8 | a.s6_addr[i]; return v; }
static inline IP6Addr mk6(u128 v) { return IP6Addr(raw6(v)); }
static inline u128 val6(IP6Addr const &a) { return num6(a.network_order()); }
static inline u32 val4(IP4Addr const &a) { return a.host_order(); }
static inline string txt4(u32 v) { char b[64]; snprintf(b, sizeof b, "%u.%u.%u.%u", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255); return b; }
static inline string full6(u128 v, bool pad = false, bool up = false) { string r; for (int i = 7; i >= 0; --i) { char b[8]; snprintf(b, sizeof b, pad ? (up ? "%04X" : "%04x") : (up ? "%X" : "%x"), unsigned(v >> (16 * i) & 0xffff)); r += b; if (i) r += ':'; } return r; }
// RFC 5952 text: longest run of two or more zero quads (first if tied) is replaced.
static inline string txt6(u128 v) {
  unsigned q[8]; for (int i = 0; i < 8; ++i) q[i] = unsigned(v >> (16 * (7 - i)) & 0xffff);
  int bi = -1, bn = 1; for (int i = 0; i < 8;) { if (q[i]) { ++i; continue; } int j = i; while (j < 8 && !q[j]) ++j; if (j - i > bn) { bn = j - i; bi = i; } i = j; }
  string r; for (int i = 0; i < 8;) { if (i == bi) { r += "::"; i += bn; continue; } char b[8]; snprintf(b, sizeof b, "%x", q[i]); if (!r.empty() && r.back() != ':') r += ':'; r += b; ++i; } return r;
}
static inline string dec128(u128 v) { string r; do { r.insert(r.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return r; }
static inline string hex128(u128 v) { char b[40]; snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; }
// Interesting addresses.
static inline u32 gen4(Rng &rng) {
  switch (rng.below(8)) {
  case 0: return rng.pick({0u, 1u, ~0u, ~0u - 1, 0x7f000001u, 0x7effffffu, 0x80000000u, 0x0a000000u, 0x09ffffffu, 0x0affffffu, 0x0b000000u, 0xac0fffffu, 0xac100000u, 0xac1fffffu, 0xac200000u, 0xc0a7ffffu, 0xc0a80000u, 0xc0a8ffffu, 0xc0a90000u, 0x643fffffu, 0x64400000u, 0x647fffffu, 0x64800000u, 0xa9fdffffu, 0xa9fe0000u, 0xa9feffffu, 0xa9ff0000u, 0xdfffffffu, 0xe0000000u, 0xefffffffu, 0xf0000000u});
  case 1: return (1u << rng.below(32)) + u32(rng.in(-2, 2));
  case 2: return ~0u << rng.below(32);
  case 3: { u32 v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | rng.pick({0u, 255u, 1u, u32(rng.below(256)), 127u, 128u, 10u, 99u, 100u}); return v; }
  case 4: return u32(rng.below(16));
  default: return u32(rng.u()); }
}
static inline u128 gen6(Rng &rng) {
  switch (rng.below(9)) {
  case 0: { static const char *T[] = {"::", "::1", "::2", "ff00::", "feff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "ff02::1", "fe80::", "fe7f:ffff::", "febf:ffff::1", "fec0::", "fc00::", "fbff:ffff::", "fdff::1", "fe00::", "::ffff:0:0", "::fffe:ffff:ffff", "::ffff:7f00:1", "::1:0:0:0", "::1:ffff:0:0", "1:0:0:0:0:ffff:1:2", "2001:db8::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "0:0:0:1::", "::ffff:ffff:ffff:ffff"}; in6_addr a; inet_pton(AF_INET6, rng.pick(T), &a); return num6(a); }
  case 1: return (u128(1) << rng.below(128)) + u128(vh::i128(rng.in(-2, 2)));
  case 2: return ~u128(0) << rng.below(128);
  case 3: case 4: { u128 v = 0; for (int i = 0; i < 8; ++i) v = v << 16 | (rng.flip() ? 0 : rng.pick({1u, 0xffffu, u32(rng.below(65536)), 0x10u, 0x100u, 0x1000u, u32(rng.below(16))})); return v; }
  case 5: return (u128(0xffff) << 32) | gen4(rng);
  case 6: return u128(rng.num()) << 64 | rng.num();
  case 7: return rng.num();
  default: return u128(rng.u()) << 64 | rng.u(); }
}
// ---- reference parsers
static inline bool sp_(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static inline string_view trim_(string_view s) { while (!s.empty() && sp_(s.front())) s.remove_prefix(1); while (!s.empty() && sp_(s.back())) s.remove_suffix(1); return s; }
enum Verdict { NO, YES, ANY }; // ANY: not specified, value still has to match when accepted.
struct P4 { Verdict ok; u32 v; };
struct P6 { Verdict ok; u128 v; };
static inline bool num_(string_view t, u64 &v, bool &odd) { // whole token is a number (decimal, octal, hexadecimal)
  if (t.empty()) return false; int base = 10; string_view d = t;
  if (t[0] == '0' && t.size() > 1) { if ((t[1] | 32) == 'x') { base = 16; d = t.substr(2); } else if ((t[1] | 32) == 'b') { base = 2; d = t.substr(2); odd = true; } else { base = 8; d = t.substr(1); } if (d.empty()) return false; }
  v = 0; for (char c : d) { int k = c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' && c > 64 ? (c | 32) - 'a' + 10 : 99; if (k >= base) return false; if (v <= 0xffffffffull) v = v * base + k; } return true;
}
static inline P4 ref4(string_view s) {
  s = trim_(s); P4 bad{NO, 0}; if (s.empty()) return bad; bool odd = false; if (s.front() == '[' && s.back() == ']') { s = s.substr(1, s.size() - 2); odd = true; }
  u64 t[5]; int n = 0; for (;;) { size_t k = s.find('.'); string_view tok = s.substr(0, k); if (n == 4 || !num_(tok, t[n], odd)) return bad; ++n; if (k == s.npos) break; s.remove_prefix(k + 1); }
  u64 v = 0; for (int i = 0; i < n - 1; ++i) { if (t[i] > 255) return bad; v |= t[i] << (24 - 8 * i); } u64 lim = n == 1 ? 0xffffffffull : (1ull << (32 - 8 * (n - 1))) - 1; if (t[n - 1] > lim) return bad; v |= t[n - 1];
  return {odd ? ANY : YES, u32(v)};
}
static inline P6 ref6(string_view s) {
  s = trim_(s); P6 bad{NO, 0}; if (s.empty()) return bad; if (s.front() == '[' || s.back() == ']') { if (s.size() < 2 || s.front() != '[' || s.back() != ']') return bad; s = s.substr(1, s.size() - 2); }
  for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F') || c == ':')) return bad;
  // allow (unspecified) extra leading zeros in a quad
  string z; bool odd = false; for (size_t i = 0; i < s.size();) { if (s[i] == ':') { z += s[i++]; continue; } size_t j = i; while (j < s.size() && s[j] != ':') ++j; string_view q = s.substr(i, j - i); while (q.size() > 4 && q[0] == '0') { q.remove_prefix(1); odd = true; } z += q; i = j; }
  in6_addr a; if (z.size() > 45 || inet_pton(AF_INET6, z.c_str(), &a) != 1) return bad; return {odd ? ANY : YES, num6(a)};
}
// ---- text generation
static inline string num_text(Rng &rng, u64 v) { char b[64]; switch (rng.below(6)) { case 0: snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); break; case 1: snprintf(b, sizeof b, "0X%llX", (unsigned long long)v); break; case 2: snprintf(b, sizeof b, "0%llo", (unsigned long long)v); break; default: snprintf(b, sizeof b, "%llu", (unsigned long long)v); } return b; }
static inline string gen4_text(Rng &rng) {
  u32 v = gen4(rng); if (rng.chance(1, 3)) return txt4(v); int n = 1 + int(rng.below(4)); if (rng.chance(1, 2)) n = 4; string r;
  for (int i = 0; i < n; ++i) { u64 x; if (i < n - 1) x = v >> (24 - 8 * i) & 255; else x = n == 1 ? v : v & ((1u << (32 - 8 * (n - 1))) - 1); if (rng.chance(1, 25)) x += rng.pick<u64>({1, 256, 0x100000000ull, u64(1) << 32, 65536, ~0ull - x}); if (i) r += '.'; r += num_text(rng, x); }
  return r;
}
static inline string gen6_text(Rng &rng) {
  u128 v = gen6(rng); char b[INET6_ADDRSTRLEN]; in6_addr a = raw6(v);
  switch (rng.below(5)) { case 0: return inet_ntop(AF_INET6, &a, b, sizeof b); case 1: return full6(v, rng.flip(), rng.flip()); case 2: return txt6(v);
  default: { // compress an arbitrary zero run (possibly a single quad)
    unsigned q[8]; for (int i = 0; i < 8; ++i) q[i] = unsigned(v >> (16 * (7 - i)) & 0xffff); int i = int(rng.below(8)), j = i; while (j < 8 && !q[j]) ++j; if (j > i && rng.flip()) j = i + 1 + int(rng.below(j - i)); string r; auto put = [&](unsigned x) { char c[8]; snprintf(c, sizeof c, rng.flip() ? "%x" : rng.flip() ? "%04x" : "%03X", x); r += c; };
    for (int k = 0; k < i; ++k) { put(q[k]); if (k < i - 1) r += ':'; } if (j > i) r += "::"; else if (i) r += ':'; for (int k = j; k < 8; ++k) { put(q[k]); if (k < 7) r += ':'; } return r; } }
}
static inline void mutate(Rng &rng, string &t, string_view alphabet) {
  for (int n = 1 + int(rng.below(3)); n; --n) { size_t p = rng.below(t.size() + 1); char c = rng.chance(1, 8) ? char(rng.u()) : alphabet[rng.below(alphabet.size())];
    switch (rng.below(7)) { case 0: t.insert(p, 1, c); break; case 1: if (p < t.size()) t.erase(p, 1); break; case 2: if (p < t.size()) t[p] = c; break; case 3: t = t.substr(0, p); break; case 4: t = t.substr(p); break; case 5: if (p < t.size()) t.insert(p, 1, t[p]); break; default: { size_t q = rng.below(t.size() + 1); if (p > q) std::swap(p, q); t.insert(rng.below(t.size() + 1), t.substr(p, std::min<size_t>(q - p, 12))); } } }
}
template <class T> static inline string show(T const &v, char const *fmt = "{}") { string s; swoc::bwprint(s, TextView{fmt, strlen(fmt)}, v); return s; }
