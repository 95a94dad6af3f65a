#include "vh.h"
#include "swoc/TextView.h"
#include <cmath>
using swoc::TextView; using std::string_view; using std::string; using vh::u64; using vh::i64;
// T03: text to number conversions against a bignum-free reference (128 bit accumulation with saturation) and strtod.
static int dig(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
struct U { u64 v; size_t n; };
static U radix(string_view s, int base) { vh::u128 v = 0; bool sat = false; size_t i = 0; for (; i < s.size() && dig(s[i]) < base; ++i) { v = v * base + dig(s[i]); if (v >> 64) { sat = true; v = 0; } } return {sat ? ~0ull : u64(v), i}; }
static U uref(string_view s, int base) { // no leading space, no sign
  if (base == 0) { base = 10; if (s.size() && s[0] == '0') { base = 8; if (s.size() > 2) { if ((s[1] | 0x20) == 'x' && dig(s[2]) < 16) { auto r = radix(s.substr(2), 16); return {r.v, r.n + 2}; } if ((s[1] | 0x20) == 'b' && dig(s[2]) < 2) { auto r = radix(s.substr(2), 2); return {r.v, r.n + 2}; } } } }
  if (base < 1 || base > 36) return {0, 0}; return radix(s, base);
}
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
template <int R> static void rdx(string_view s) { TextView v{s}; u64 g = swoc::svto_radix<R>(v); auto w = radix(s, R); CHECK(g == w.v, "svto_radix", "svto_radix<%d>(%s) = %llu expected %llu", R, vh::esc(s).c_str(), (unsigned long long)g, (unsigned long long)w.v); CHECK(v.size() == s.size() - w.n && (v.empty() || v.data() == s.data() + w.n), "svto_radix", "svto_radix<%d>(%s) left %s", R, vh::esc(s).c_str(), vh::esc(v).c_str()); CHECK(swoc::svto_radix<R>(TextView{s}) == w.v, "svto_radix", "rvalue overload"); vh::obs(g); EV("radix"); }
static void integers(string const &text, int base) {
  vh::HText ht(text); string_view s = ht; size_t b = 0; while (b < s.size() && sp(s[b])) ++b; vh::T("%s base %d", vh::esc(text).c_str(), base);
  { auto w = uref(s.substr(b), base); TextView parsed{"junk"}; u64 g = swoc::svtou(s, &parsed, base); EV("svtou"); CHECK(g == w.v, "svtou", "svtou(%s,%d) = %llu expected %llu", vh::esc(text).c_str(), base, (unsigned long long)g, (unsigned long long)w.v); CHECK(parsed.size() == w.n && (!w.n || parsed.data() == s.data() + b), "svtou-parsed", "svtou(%s,%d) parsed %s expected %s", vh::esc(text).c_str(), base, vh::esc(parsed).c_str(), vh::esc(s.substr(b, w.n)).c_str()); CHECK(swoc::svtou(s, nullptr, base) == g, "svtou", "depends on parsed"); vh::obs(g); vh::obs(w.n); }
  { size_t p = b; bool neg = false; if (p < s.size() && (s[p] == '-' || s[p] == '+')) neg = s[p++] == '-'; auto w = uref(s.substr(p), base); i64 want = 0; size_t n = 0; if (w.n) { n = p - b + w.n; want = neg ? (w.v > (1ull << 63) ? INT64_MIN : i64(0 - w.v)) : (w.v > u64(INT64_MAX) ? INT64_MAX : i64(w.v)); }
    TextView parsed{"junk"}; i64 g = swoc::svtoi(s, &parsed, base); EV("svtoi"); CHECK(g == want, "svtoi", "svtoi(%s,%d) = %lld expected %lld", vh::esc(text).c_str(), base, (long long)g, (long long)want); CHECK(parsed.size() == n && (!n || parsed.data() == s.data() + b), "svtoi-parsed", "svtoi(%s,%d) parsed %s expected %s", vh::esc(text).c_str(), base, vh::esc(parsed).c_str(), vh::esc(s.substr(b, n)).c_str()); CHECK(swoc::svtoi(s, nullptr, base) == g, "svtoi", "depends on parsed"); vh::obs(u64(g)); }
}
static string render(u64 v, int base, vh::Rng &rng) { string r; do { int d = int(v % base); r.insert(r.begin(), d < 10 ? char('0' + d) : char((rng.flip() ? 'a' : 'A') + d - 10)); v /= base; } while (v); return r; }
static string itext(vh::Rng &rng, int base) {
  int eb = base ? base : 10; if (eb < 2 || eb > 36) eb = 10; string t; if (rng.chance(1, 4)) for (int i = int(rng.below(3)); i >= 0; --i) t += rng.pick({' ', '\t', '\n', '\v', '\f', '\r'});
  if (rng.chance(1, 3)) t += rng.pick({'-', '+'}); if (rng.chance(1, 30)) t += rng.pick({'-', '+', ' '});
  if (base == 0 && rng.flip()) { switch (rng.below(4)) { case 0: t += "0x"; eb = 16; break; case 1: t += rng.flip() ? "0b" : "0B"; eb = 2; break; case 2: t += "0X"; eb = 16; break; default: t += "0"; eb = 8; } } else if (rng.chance(1, 12)) t += rng.pick({"0x", "0b", "0", "00"});
  switch (rng.below(6)) { case 0: break; case 1: for (int i = int(rng.below(70)); i >= 0; --i) t += render(rng.below(eb), eb, rng); break; case 2: t += render(~0ull - rng.below(eb + 2), eb, rng); if (rng.flip()) t += render(rng.below(eb), eb, rng); break; case 3: t += render((1ull << 63) + rng.below(4) - 2, eb, rng); break; default: t += render(rng.num(), eb, rng); }
  if (rng.chance(1, 3)) { char c = char(rng.u()); t += rng.chance(1, 2) ? rng.pick({'.', 'g', 'Z', 'z', 'T', 't', '@', '[', '`', '{', '/', ':', ' ', 'e', '8', '2', '-'}) : c; }
  return t;
}
SUB(integer, 150000, 5000000, 0) { int base = rng.chance(1, 2) ? 0 : rng.chance(1, 30) ? rng.pick({-1, 37, 1, 256, INT_MIN, INT_MAX}) : int(rng.in(2, 36)); integers(itext(rng, base), base); }
SUB(junk, 60000, 2000000, 0) { string t(rng.size(10), 0); for (auto &c : t) c = rng.chance(1, 3) ? char(rng.u()) : rng.pick({'0', 'x', '1', '-', '+', ' ', 'b', 'T', '9', 'f'}); integers(t, rng.flip() ? 0 : int(rng.in(2, 36))); }
SUB(radixes, 60000, 2000000, 0) { int r = rng.pick({2, 3, 4, 8, 10, 16, 20, 29, 30, 36}); string t = itext(rng, r); if (rng.flip()) { size_t k = t.find_first_not_of(" \t\n\v\f\r+-"); t = k == string::npos ? "" : t.substr(k); } vh::HText h(t); switch (r) { case 2: rdx<2>(h); break; case 3: rdx<3>(h); break; case 4: rdx<4>(h); break; case 8: rdx<8>(h); break; case 10: rdx<10>(h); break; case 16: rdx<16>(h); break; case 20: rdx<20>(h); break; case 29: rdx<29>(h); break; case 30: rdx<30>(h); break; default: rdx<36>(h); } }
SUB(digit_table, 256 * 37, 256 * 37, vh::EXHAUSTIVE) { int c = int(vh::S().idx % 256), base = int(vh::S().idx / 256); integers(string(1, char(c)), base); integers(string("1") + char(c), base); integers(string(1, char(c)) + "1", base); int want = dig(static_cast<unsigned char>(c)); CHECK(swoc::svtoi_convert[c] == (want == 99 ? -1 : want), "svtoi_convert", "table entry %d is %d", c, swoc::svtoi_convert[c]); }
// floating point
static size_t fprefix(string_view s) { size_t i = 0, d = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i, ++d; if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i, ++d; } if (!d) return 0;
  size_t e = i; if (e < s.size() && (s[e] == 'e' || s[e] == 'E')) { ++e; if (e < s.size() && (s[e] == '-' || s[e] == '+')) ++e; if (e < s.size() && s[e] >= '0' && s[e] <= '9') { while (e < s.size() && s[e] >= '0' && s[e] <= '9') ++e; i = e; } } return i; }
static void floating(string const &text) {
  vh::HText h(text); string_view s = h; size_t n = fprefix(s); string num(s.substr(0, n)); double want = n ? strtod(num.c_str(), nullptr) : 0; TextView parsed{"junk"}; double g = swoc::svtod(s, &parsed); EV("svtod"); vh::T("%s", vh::esc(text).c_str());
  CHECK(parsed.size() == n && (!n || parsed.data() == s.data()), "svtod-parsed", "svtod(%s) parsed %s expected %s", vh::esc(text).c_str(), vh::esc(parsed).c_str(), vh::esc(num).c_str());
  bool ok; if (std::isinf(want)) ok = g == want || std::fabs(g) >= 1.7e308; else if (std::isinf(g)) ok = std::fabs(want) > 1.7976931348623e308; else { double d = std::fabs(g - want); double ulp = std::max(std::nextafter(std::fabs(want), INFINITY) - std::fabs(want), 4.94065645841246544e-324); ok = d <= 2 * ulp || d <= 1e-14 * std::fabs(want); }
  ok = ok && std::signbit(g) == std::signbit(want);  if (want == 0 && g == 0) ok = true;
  CHECK(ok, "svtod", "svtod(%s) = %.20g expected %.20g", vh::esc(text).c_str(), g, want); double g2 = swoc::svtod(s); CHECK(!memcmp(&g, &g2, sizeof g), "svtod", "depends on parsed"); u64 bits; memcpy(&bits, &g, 8); vh::obs(bits); vh::obs(n);
}
SUB(real, 150000, 5000000, 0) {
  string t; char b[400];
  switch (rng.below(5)) {
  case 0: { u64 bits = rng.u(); if (rng.chance(1, 3)) bits = (bits & ~(0x7ffull << 52)) | (rng.below(40) + 1005) << 52; double d; memcpy(&d, &bits, 8); if (!std::isfinite(d)) d = 1; snprintf(b, sizeof b, rng.pick({"%.17g", "%.5e", "%f", "%.15g", "%.3f", "%E"}), d); t = b; break; }
  case 1: { snprintf(b, sizeof b, "%lld.%0*llu", (long long)rng.num(), int(rng.in(1, 18)), (unsigned long long)rng.below(1000000)); t = b; break; }
  case 2: { for (int i = int(rng.size(50)); i > 0; --i) t += char('0' + rng.below(rng.flip() ? 10 : 1)); if (rng.flip()) t += '.'; for (int i = int(rng.size(50)); i > 0; --i) t += char('0' + rng.below(rng.flip() ? 10 : 1)); if (rng.flip()) t += "e" + std::to_string(rng.in(-340, 340)); if (rng.flip()) t.insert(0, rng.pick({"-", "+"})); break; }
  case 3: { t = std::to_string(i64(rng.num())); if (rng.flip()) t += rng.pick({"e", "E", "e+", "e-", "."}); if (rng.flip()) t += std::to_string(rng.chance(1, 5) ? rng.num() : rng.below(400)); break; }
  default: t.assign(rng.size(12), 0); for (auto &c : t) c = rng.chance(1, 10) ? char(rng.u()) : rng.pick({'0', '1', '9', '.', 'e', 'E', '-', '+', ' ', '5'}); }
  if (rng.chance(1, 5)) t += rng.pick({" ", "x", ".", "e", ".5", "-", "f", "\xff"});
  floating(t);
}
static constexpr unsigned FX = 1 + 7 + 49 + 343 + 2401 + 16807;
SUB(real_exhaustive, FX, FX, vh::EXHAUSTIVE) { unsigned k = unsigned(vh::S().idx), len = 0, p = 1; while (k >= p) { k -= p; p *= 7; ++len; } string s; for (unsigned i = 0; i < len; ++i, k /= 7) s += "05.eE-+"[k % 7]; floating(s); }
// Scale: numerals of thousands of characters: leading zeros, saturating runs, long fractions and leading space.
SUB(long_numerals, 3000, 100000, 0) {
  size_t L = (size_t(1) << rng.in(4, 13)) + rng.below(9); int base = rng.flip() ? 0 : int(rng.in(2, 36)); int eb = base ? base : 10; string t; if (rng.chance(1, 3)) t.assign(rng.below(L), rng.pick({' ', '\t', '\n'})); if (rng.flip()) t += rng.pick({'-', '+'}); if (base == 0 && rng.chance(1, 3)) { t += rng.pick({"0x", "0b", "0X", "0B"}); eb = (t.back() | 0x20) == 'x' ? 16 : 2; }
  t.append(rng.below(L), '0'); if (rng.flip()) t += render(rng.num(), eb, rng); else for (size_t i = rng.below(L); i; --i) t += render(rng.below(eb), eb, rng); if (rng.flip()) t += rng.pick({".", "g", " ", "\xff", "-"}); integers(t, base);
  t.clear(); if (rng.flip()) t += rng.pick({'-', '+'}); t.append(rng.chance(1, 3) ? rng.below(L) : 0, '0'); for (size_t i = rng.chance(1, 2) ? rng.below(20) : rng.below(330); i; --i) t += char('0' + rng.below(10)); if (rng.chance(3, 4)) { t += '.'; t.append(rng.chance(1, 3) ? rng.below(L) : 0, '0'); for (size_t i = rng.below(rng.flip() ? 20 : L); i; --i) t += char('0' + rng.below(10)); } if (rng.chance(1, 3)) { t += rng.pick({"e", "e+", "e-"}); t.append(rng.below(9), '0'); t += std::to_string(rng.below(320)); }
  floating(t); EV("long numerals");
}

// Digit strings next to the limits of the integer accumulators, with the point, more digits and an exponent anywhere.
SUB(real_limits, 30000, 800000, 0) {
  vh::u128 base = rng.pick<vh::u128>({vh::u128(1) << 64, (vh::u128(1) << 64) / 10, (vh::u128(1) << 63), vh::u128(1) << 53, vh::u128(1) << 54, vh::u128(10000000000000000000ull), vh::u128(1) << 80, (vh::u128(1) << 64) * 10}); base += vh::u128(__int128(rng.in(-20, 20))); string d; do { d.insert(0, 1, char('0' + int(base % 10))); base /= 10; } while (base);
  if (rng.chance(1, 3)) d.insert(0, rng.below(6), '0'); for (int i = int(rng.below(rng.flip() ? 3 : 24)); i > 0; --i) d += char('0' + rng.below(10)); if (rng.chance(2, 3)) d.insert(rng.below(d.size() + 1), "."); if (rng.chance(1, 3)) d += "e" + std::to_string(rng.in(-300, 250)); if (rng.flip()) d.insert(0, rng.pick({"-", "+"})); EV("real_limits"); floating(d); string n = d.substr(0, d.find_first_of(".e")); integers(n, rng.pick({0, 10, 16, 11, 36}));
}
