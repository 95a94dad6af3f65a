// Reference model of the format specifier language, independent of the library parser and renderers.
#pragma once
#include "vh.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
#include "swoc/TextView.h"
#include <cmath>
namespace bw {
using namespace vh;
using swoc::BufferWriter; using swoc::FixedBufferWriter; using swoc::TextView;
struct FSpec {
  char fill = ' ', align = 0, sign = '-', type = 0; bool radix = false, zero = false; u64 min = 0; i64 prec = -1; i64 max = -1; std::string ext; bool has_ext = false;
  // effective
  char efill() const { return zero ? '0' : fill; }
  char ealign() const { return align ? align : (zero ? '=' : 0); }
  std::string style(Rng &rng) const { // one of the equivalent spellings.
    std::string s; bool special = fill == '{' || fill == '}' || fill == ':' || fill == '%' || u8(fill) >= 0x80 || u8(fill) < 0x20;
    if (align) {
      if (fill != ' ' || rng.chance(1, 3)) { if (special || rng.chance(1, 4)) { char b[8]; snprintf(b, sizeof b, rng.flip() ? "%%%02x" : "%%%02X", u8(fill)); s += b; } else s += fill; }
      s += align; }
    if (sign != '-' || rng.chance(1, 8)) s += sign;
    if (radix) s += '#';
    if (zero) s += '0';
    if (min) s += std::to_string(min);
    if (prec >= 0) s += "." + std::to_string(prec);
    bool after = max >= 0 && rng.flip(); // the type may precede or follow the maximum.
    if (type && !after) s += type;
    if (max >= 0) s += "," + std::to_string(max);
    if (type && after) s += type;
    return s;
  }
  std::string text(Rng &rng, std::string name = "") const { auto s = style(rng); std::string r = "{" + name; if (s.size() || has_ext || rng.chance(1, 6)) r += ":" + s; if (has_ext) r += ":" + ext; return r + "}"; }
};
inline std::string clip(std::string s, FSpec const &f) { if (f.max >= 0 && s.size() > u64(f.max)) s.resize(f.max); return s; }
inline std::string place(std::string const &body, FSpec const &f, char deflt = '<') {
  u64 min = f.min;
  if (body.size() >= min) return body;
  size_t d = min - body.size(); char a = f.ealign() ? f.ealign() : deflt; char c = f.efill();
  size_t l = a == '>' ? d : a == '^' ? d / 2 : 0; return std::string(l, c) + body + std::string(d - l, c);
}
inline std::string digits(u128 v, unsigned radix, bool upper) { std::string s; do { s.insert(s.begin(), (upper ? "0123456789ABCDEF" : "0123456789abcdef")[unsigned(v % radix)]); v /= radix; } while (v); return s; }
// Integer of magnitude @a m.
inline std::string ref_int(u64 m, bool neg, FSpec const &f) {
  unsigned r = 10; bool up = false; std::string pre;
  switch (f.type) { case 'x': r = 16; pre = "0x"; break; case 'X': r = 16; up = true; pre = "0X"; break; case 'b': r = 2; pre = "0b"; break; case 'B': r = 2; pre = "0B"; break; case 'o': r = 8; pre = "0"; break; default: break; }
  if (!f.radix) pre.clear();
  std::string s; if (f.sign != ' ') { if (neg) s = "-"; else if (f.sign == '+') s = "+"; }
  std::string d = digits(m, r, up);
  if (f.ealign() == '=') { // width padding between the prefixes and the digits, then the maximum clips.
    size_t n = s.size() + pre.size() + d.size(); return clip(s + pre + std::string(f.min > n ? f.min - n : 0, f.efill()) + d, f);
  }
  return clip(place(s + pre + d, f), f);
}
inline std::string ref_text(std::string v, FSpec const &f) {
  if (f.prec > 0 && v.size() > u64(f.prec)) v.resize(f.prec);
  if (f.type == 's') for (auto &c : v) c = char(tolower(u8(c))); if (f.type == 'S') for (auto &c : v) c = char(toupper(u8(c)));
  if (f.type == 'x' || f.type == 'X') { std::string h = f.radix ? std::string("0") + f.type : ""; for (char c : v) { auto d = digits(u8(c), 16, f.type == 'X'); h += d.size() == 1 ? "0" + d : d; } v = h; }
  return clip(place(v, f), f);
}
inline FSpec gen_spec(Rng &rng, std::initializer_list<char> types, bool sign_align) {
  FSpec f;
  if (rng.chance(1, 2)) { f.align = rng.pick<char>({'<', '>', '^', '='}); if (f.align == '=' && !sign_align) f.align = '>'; if (rng.flip()) { do f.fill = rng.chance(1, 4) ? char(rng.u()) : char(33 + rng.below(94)); while (f.fill == 0); } }
  if (rng.chance(1, 4)) f.sign = rng.pick<char>({'+', '-', ' '});
  f.radix = rng.chance(1, 4); if (sign_align) f.zero = rng.chance(1, 6);
  if (rng.chance(1, 2)) f.min = rng.chance(1, 10) ? rng.below(200) : 1 + rng.below(30);
  if (rng.chance(1, 6)) f.max = f.min + (rng.flip() ? 0 : rng.below(35)); // a maximum below the minimum is contradictory, not specified.
  if (rng.chance(1, 12)) { f.min = 0; f.max = rng.below(12); }
  if (types.size() && rng.chance(3, 4)) f.type = rng.pick(types);
  return f;
}
// Unbounded rendering through a large fixed buffer.
template <class... A> std::string render(TextView fmt, A const &...a) {
  static thread_local std::vector<char> buf(1 << 16); FixedBufferWriter w{buf.data(), buf.size()}; w.print(fmt, a...);
  if (!w.error()) return std::string(w.view());
  CHECK(w.extent() < (1u << 25), "size", "output of %zu", w.extent()); std::vector<char> big(w.extent()); FixedBufferWriter bwr{big.data(), big.size()}; bwr.print(fmt, a...);
  CHECK(!bwr.error(), "size", "second rendering longer than the first: %zu", bwr.extent()); return std::string(bwr.view());
}
} // namespace bw
