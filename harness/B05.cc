// B05: floating point output against the exact decimal expansion (arbitrary precision, from the C library).
#include "bw.h"
using namespace bw; using namespace swoc::literals;

// |a - b| <= limit for non-negative decimal digit strings of the same scale.
static bool near(std::string a, std::string b, unsigned limit) {
  size_t n = std::max(a.size(), b.size()); a.insert(0, n - a.size(), '0'); b.insert(0, n - b.size(), '0'); if (a < b) std::swap(a, b);
  int borrow = 0; std::string d(n, '0'); for (size_t i = n; i-- > 0;) { int x = a[i] - b[i] - borrow; borrow = x < 0; if (x < 0) x += 10; d[i] = char('0' + x); }
  size_t p = d.find_first_not_of('0'); if (p == d.npos) return true; d = d.substr(p); return d.size() < 10 && strtoul(d.c_str(), nullptr, 10) <= limit;
}
static std::string strip_dot(std::string s) { auto p = s.find('.'); if (p != s.npos) s.erase(p, 1); return s; }
// Check the digits @a body (no sign) are @a v to @a prec digits.
static void digits_of(std::string const &body, double v, unsigned prec, std::string const &ctx) {
  v = std::fabs(v); auto dot = body.find('.'); std::string whole = body.substr(0, dot), frac = dot == body.npos ? "" : body.substr(dot + 1);
  CHECK(!whole.empty() && whole.find_first_not_of("0123456789") == whole.npos && frac.find_first_not_of("0123456789") == frac.npos, "float digits", "%s: malformed number %s", ctx.c_str(), body.c_str());
  CHECK(whole.size() == 1 || whole[0] != '0', "float digits", "%s: leading zero in %s", ctx.c_str(), body.c_str());
  if (dot == body.npos) CHECK(prec == 0 || v == std::floor(v), "float digits", "%s: the fraction is missing in %s", ctx.c_str(), body.c_str());
  // Past the last non-zero digit of the expansion there is nothing left to print.
  else CHECK(frac.size() == prec || (frac.size() < prec && frac.size() >= 1074), "float digits", "%s: %zu fraction digits in %s, expected %u", ctx.c_str(), frac.size(), body.c_str(), prec);
  unsigned have = unsigned(frac.size()), p = dot == body.npos ? 0 : have; std::vector<char> b(400 + p + 3); int n = snprintf(b.data(), b.size(), "%.*f", int(p + 3), v);
  std::string exact = strip_dot(std::string(b.data(), n)), got = strip_dot(body) + "000";
  CHECK(near(exact, got, 1000), "float value", "%s: printed %s, exact %s", ctx.c_str(), body.c_str(), b.data());
}
template <class F> void one(Rng &rng, F fv) {
  double v = double(fv); FSpec f; if (rng.chance(2, 3)) { f.prec = rng.chance(1, 10) ? rng.below(1200) : rng.chance(1, 3) ? rng.below(40) : rng.below(12); }
  if (rng.flip()) { f.min = rng.below(50); if (rng.chance(3, 4)) { f.align = rng.pick<char>({'<', '>', '^', '='}); if (rng.flip()) f.fill = rng.pick<char>({'*', '_', '0', '~'}); } else f.zero = rng.chance(1, 3); }
  if (rng.chance(1, 5)) f.sign = '+'; if (rng.chance(1, 6)) f.type = 'g';
  auto fmt = f.text(rng); HText h(fmt); std::string ctx = fmt; { char b[64]; snprintf(b, sizeof b, " of %a (%.17g)", v, v); ctx += b; }
  auto got = render(TextView(h.view()), fv); T("%s -> %s", ctx.c_str(), got.substr(0, 100).c_str()); obs(got); obs(fmt);
  if (std::isnan(v) || std::isinf(v) || v == 0) {
    std::string t = std::isnan(v) ? "NaN" : v == 0 ? "0" : v < 0 ? "-Inf" : "Inf"; EV("special values"); if (f.ealign() == '=') { std::string g2; for (char c : got) if (c != f.efill() || t.find(c) != t.npos) g2 += c; CHECK(got.find(t) != got.npos, "special value", "%s gave %s", ctx.c_str(), got.c_str()); return; }
    eq_text(got, place(t, f), "special value", ctx); return; }
  if (!std::isnormal(v)) { CHECK(!got.empty(), "subnormal", "%s printed nothing", ctx.c_str()); EV("subnormals"); return; }
  // remove the padding according to the specification.
  std::string sign = v < 0 ? "-" : f.sign == '+' ? "+" : ""; std::string body; u64 min = f.min; char c = f.efill(), a = f.ealign() ? f.ealign() : '<';
  std::string s = got;
  if (a == '=') { CHECK(s.compare(0, sign.size(), sign) == 0, "float sign", "%s gave %s", ctx.c_str(), got.c_str()); s.erase(0, sign.size()); }
  auto unpad = [&](bool left) { size_t k = 0; if (left) { while (k < s.size() && s[k] == c && (c != '0' || (k + 1 < s.size() && s[k + 1] != '.'))) ++k; s.erase(0, k); } else { while (s.size() && s.back() == c) s.pop_back(), ++k; } return k; };
  if (got.size() > min || c == '0') { // no padding (or ambiguous): locate the number by its length limits.
    if (got.size() > min || min == 0) { body = s; } else { // zero filled
      if (a == '<' || a == '^') { EV("ambiguous zero fill skipped"); return; } unpad(true); if (s.empty()) s = "0"; body = s; }
  } else { size_t l = 0, r = 0; if (a == '>' || a == '^' || a == '=') l = unpad(true); if (a == '<' || a == '^') r = unpad(false); body = s; size_t d = l + r; CHECK(got.size() == std::max<size_t>(min, got.size() - d), "float padding", "%s gave %s", ctx.c_str(), got.c_str()); if (a == '^') CHECK(l == d / 2, "float padding", "%s: %zu fill on the left of %zu", ctx.c_str(), l, d); }
  CHECK(got.size() >= min, "float padding", "%s: %zu characters", ctx.c_str(), got.size());
  if (a != '=') { if (!(a == '>' && c == '0' && got.size() == min)) { CHECK(body.compare(0, sign.size(), sign) == 0, "float sign", "%s gave %s", ctx.c_str(), got.c_str()); body.erase(0, sign.size()); } else { if (body.size() && (body[0] == '-' || body[0] == '+')) { CHECK(std::string(1, body[0]) == sign, "float sign", "%s gave %s", ctx.c_str(), got.c_str()); body.erase(0, 1); } else CHECK(sign.empty(), "float sign", "%s gave %s", ctx.c_str(), got.c_str()); } }
  digits_of(body, v, f.prec < 0 ? 2 : unsigned(f.prec), ctx); if (body.find('.') == body.npos) EV("integral values"); else EV("fractional values");
}
static double gen(Rng &rng) {
  double v;
  switch (rng.below(10)) {
  case 0: { u64 u = rng.u(); memcpy(&v, &u, 8); break; } // any bit pattern
  case 1: v = double(rng.num()); break;
  case 2: v = double(rng.below(1000000)) / rng.pick({10.0, 100.0, 1000.0, 1e6, 7.0, 3.0}); break;
  case 3: { double p = std::pow(10.0, int(rng.below(8))); v = std::nextafter(double(rng.below(1000)) + (p - 0.5) / p, rng.flip() ? 0.0 : 1e9); break; } // close to a rounding carry
  case 4: v = std::ldexp(1.0 + double(rng.u() >> 12) * 0x1p-52, int(rng.in(-60, 70))); break;
  case 5: v = 1.0 - std::ldexp(double(rng.below(4)), -int(rng.below(54))); v += double(rng.below(3)); break;
  case 6: v = rng.pick({0.0, -0.0, HUGE_VAL, -HUGE_VAL, double(NAN), 1.0, 0.5, 0.05, 0.005, 0.995, 0.9999999, 1e15, 9007199254740991.0, 9007199254740992.5, 18446744073709551615.0, 18446744073709549568.0, 1e19, 1e20, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324}); break;
  case 7: v = double(rng.below(100)) + std::pow(10.0, -double(rng.below(20))); break; // leading fraction zeros
  case 8: v = std::pow(10.0, double(rng.in(-20, 25))) * double(1 + rng.below(9)); break;
  default: v = double(rng.u() >> 11) * 0x1p-53; break;
  }
  return rng.flip() ? -v : v;
}
SUB(doubles, 240000, 3000000, 0) { one(rng, gen(rng)); }
SUB(floats, 60000, 600000, 0) { double d = gen(rng); float f = std::fabs(d) > 3.4e38 && !std::isinf(d) ? float(1.5) : float(d); one(rng, f); }
SUB(long_doubles, 20000, 200000, 0) { one(rng, static_cast<long double>(gen(rng))); }
SUB(every_precision, 30, 300, 0) { // each precision for one value
  double v = gen(rng); if (!std::isnormal(v) || v == std::floor(v)) v = 3.14159265358979; v = std::fabs(v);
  for (unsigned p = 0; p < 330; ++p) { FSpec f; f.prec = p; auto fmt = f.text(rng); auto s = render(TextView(fmt), v); digits_of(s, v, p, fmt); obs(s); EV("precisions"); }
}
