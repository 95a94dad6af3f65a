// B02: formatted values against an independent rendering of the specifier language.
#include "bw.h"
#include <sys/mman.h>
using namespace bw; using namespace swoc::literals;

template <class V> void value(Rng &rng, V const &v, std::string const &want, FSpec const &f, char const *oracle) {
  auto fmt = f.text(rng); HText h(fmt);
  auto got = render(TextView(h.view()), v); T("%s -> %s", fmt.c_str(), got.c_str()); obs(fmt); obs(got);
  eq_text(got, want, oracle, "format " + esc(fmt));
}
template <class I> void integer(Rng &rng) {
  I v; u64 r = rng.num(); memcpy(&v, &r, sizeof v); if (rng.chance(1, 12)) v = std::numeric_limits<I>::min(); else if (rng.chance(1, 12)) v = std::numeric_limits<I>::max();
  bool neg = v < 0; u64 m = neg ? u64(0) - u64(i64(v)) : u64(v);
  auto f = gen_spec(rng, {'d', 'x', 'X', 'b', 'B', 'o', 'g'}, true); value(rng, v, ref_int(m, neg, f), f, "integer");
  if (neg) EV("negative integers");
}
SUB(integers, 240000, 2400000, 0) {
  switch (rng.below(10)) { case 0: integer<signed char>(rng); break; case 1: integer<unsigned char>(rng); break; case 2: integer<short>(rng); break; case 3: integer<unsigned short>(rng); break; case 4: integer<int>(rng); break; case 5: integer<unsigned>(rng); break;
  case 6: integer<long>(rng); break; case 7: integer<unsigned long>(rng); break; case 8: integer<long long>(rng); break; default: integer<unsigned long long>(rng); }
}
SUB(bytes_all, 256 * 7, 256 * 7, vh::EXHAUSTIVE) { // every 8 bit value, each radix.
  u64 i = S().idx; FSpec f; f.type = "dxXbBog"[i / 256]; u8 v = u8(i); value(rng, v, ref_int(v, false, f), f, "integer"); signed char c = (signed char)v; value(rng, c, ref_int(c < 0 ? u64(-int(c)) : u64(c), c < 0, f), f, "integer");
}
SUB(bools, 12000, 120000, 0) {
  bool b = rng.flip(); auto f = gen_spec(rng, {'d', 's', 'S', 'x', 'b'}, false);
  if (f.type == 's' || f.type == 'S') { std::string t = b ? "true" : "false"; if (f.type == 'S') t = b ? "TRUE" : "FALSE"; value(rng, b, place(clip(t, f), f), f, "bool"); }
  else value(rng, b, ref_int(b, false, f), f, "bool");
}
SUB(pointers, 30000, 300000, 0) {
  u64 a = rng.num(); auto f = gen_spec(rng, {'p', 'P', 'x', 'X'}, true);
  if (rng.chance(1, 4)) { // null
    f.type = rng.pick<char>({0, 'p', 'P', 'x', 'X', 's', 'S'}); EV("null pointers"); if (f.align == '=') f.align = '<'; f.zero = false;
    std::string t; FSpec g = f; g.type = 0; g.prec = -1;
    if (f.type == 's' || f.type == 'S') { // the marker text follows the text rules.
      t = f.type == 's' ? "null" : "NULL"; t = ref_text(t, g);
    } else if (f.type == 0) t = place("", f); else { g.radix = true; g.type = (f.type == 'p' || f.type == 'x') ? 'x' : 'X'; t = ref_int(0, false, g); }
    switch (rng.below(3)) { case 0: value(rng, static_cast<void *>(nullptr), t, f, "null pointer"); break; case 1: value(rng, nullptr, t, f, "null pointer"); break; default: value(rng, static_cast<char const *>(nullptr), t, f, "null pointer"); }
    return;
  }
  if (!a) a = 1; FSpec g = f; g.radix = true; g.type = (f.type == 0 || f.type == 'p' || f.type == 'x') ? 'x' : 'X'; auto want = ref_int(a, false, g);
  switch (rng.below(3)) { case 0: value(rng, reinterpret_cast<void *>(a), want, f, "pointer"); break; case 1: value(rng, reinterpret_cast<int const *>(a), want, f, "pointer"); break;
  default: if (f.type) value(rng, reinterpret_cast<char const *>(a), want, f, "pointer"); else value(rng, reinterpret_cast<long *>(a), want, f, "pointer"); }
}
static std::string rtext(Rng &rng, size_t max) { std::string s(rng.size(max), 0); bool ascii = rng.chance(2, 3); for (auto &c : s) c = ascii ? char(32 + rng.below(95)) : char(rng.u()); return s; }
SUB(chars, 12000, 120000, 0) { char c = char(rng.u()); auto f = gen_spec(rng, {}, false); value(rng, c, place(clip(std::string(1, c), f), f), f, "char"); }
SUB(texts, 140000, 1400000, 0) {
  auto s = rtext(rng, rng.chance(1, 8) ? 300 : 40); auto f = gen_spec(rng, {'s', 'S', 'x', 'X', 'g'}, false); if (rng.chance(1, 3)) f.prec = rng.below(40); auto want = ref_text(s, f); HText h(s);
  switch (rng.below(5)) { case 0: value(rng, h.view(), want, f, "text"); break; case 1: value(rng, TextView(h.view()), want, f, "text"); break; case 2: value(rng, s, want, f, "text"); break;
  case 3: { if (f.type == 'x' || f.type == 'X') f.type = 'g'; for (auto &c : s) if (!c) c = 'z'; want = ref_text(s, f); HText z(s + '\0'); value(rng, static_cast<char const *>(z.data()), want, f, "c string"); break; }
  default: { swoc::LocalBufferWriter<400> src; src.write(s); value(rng, static_cast<BufferWriter const &>(src), want, f, "writer as text"); } }
}
SUB(literals, 3000, 30000, 0) { auto f = gen_spec(rng, {'s', 'S', 'g'}, false); value(rng, "Delain", ref_text("Delain", f), f, "literal array"); }

// Argument selection, literals and doubled braces.
struct Arg { u64 v; };
SUB(selection, 90000, 900000, 0) {
  u64 n = rng.num(); i64 neg = -i64(rng.below(1000)); std::string s = rtext(rng, 12); bool b = rng.flip(); char c = char(33 + rng.below(90)); u64 m = rng.below(99);
  std::string fmt, want; unsigned implicit = 0; u64 parts = 1 + rng.below(9);
  auto one = [&](unsigned idx, FSpec const &f) -> std::string {
    switch (idx) { case 0: return ref_int(n, false, f); case 1: return ref_int(u64(-neg), neg < 0, f); case 2: return ref_text(s, f); case 3: return ref_int(b, false, f); case 4: return place(clip(std::string(1, c), f), f); case 5: return ref_int(m, false, f); 
    default: { char t[64]; snprintf(t, sizeof t, "{BAD_ARG_INDEX:%u of 6}", idx); EV("bad argument index"); return place(clip(t, f), f); } } };
  for (; parts; --parts) {
    switch (rng.below(4)) {
    case 0: { auto l = rtext(rng, 10); for (char ch : l) { want += ch; fmt += ch; if (ch == '{' || ch == '}') fmt += ch; } break; }
    case 1: { bool o = rng.flip(); fmt += o ? "{{" : "}}"; want += o ? '{' : '}'; break; }
    case 2: { unsigned idx = implicit++; FSpec f; if (rng.flip()) { f.min = rng.below(20); if (rng.flip()) f.align = rng.pick<char>({'<', '>', '^'}); } fmt += f.text(rng); want += one(idx, f); break; }
    default: { unsigned idx = rng.chance(1, 10) ? 6 + rng.below(100000) : rng.below(6); FSpec f; if (rng.flip()) { f.min = rng.below(20); if (rng.flip()) f.align = rng.pick<char>({'<', '>', '^'}); } std::string nm = std::to_string(idx); if (rng.chance(1, 6)) nm = "0" + nm; fmt += f.text(rng, nm); want += one(idx, f); EV("positional"); }
    }
  }
  HText h(fmt); T("%s", fmt.c_str()); eq_text(render(TextView(h.view()), n, neg, s, b, c, m), want, "selection", esc(fmt));
  swoc::bwf::Format pre{TextView(h.view())}; swoc::LocalBufferWriter<8000> w; w.print(pre, n, neg, s, b, c, m); if (!w.error()) eq_text(w.view(), want, "selection (precompiled)", esc(fmt));
  w.clear(); w.print_v(TextView(h.view()), std::forward_as_tuple(n, neg, s, b, c, m)); if (!w.error()) eq_text(w.view(), want, "selection (tuple)", esc(fmt));
  obs(fmt); obs(want);
}
// Direct rendering with a specifier object, and the stream form.
SUB(direct, 30000, 300000, 0) {
  auto f = gen_spec(rng, {'d', 'x', 'X', 'b', 'o'}, true); f.max = -1; u64 v = rng.num(); auto st = f.style(rng); std::string whole = ":" + st; HText h(whole); swoc::bwf::Spec spec{TextView(h.view())};
  swoc::LocalBufferWriter<1000> w; w.format(spec, v); FSpec g = f; if (!f.ealign()) g.min = 0; eq_text(w.view(), ref_int(v, false, g), "direct", esc(whole)); // without an alignment the container pads
  w.clear(); std::string s = rtext(rng, 10); w << v << ':' << s << -5; eq_text(w.view(), std::to_string(v) + ":" + s + "-5", "stream", "operator<<"); obs(w.view());
}

// Scale: widths, precisions, texts and formats in the tens of thousands, and indexes of more than one digit.
SUB(large, 900, 20000, 0) {
  size_t wd = (size_t(1) << rng.in(7, 18)) + rng.below(40) - 20; auto near = [&] { return (size_t(1) << rng.in(7, 16)) + rng.below(9) - 4; };
  switch (rng.below(5)) {
  case 4: { auto f = gen_spec(rng, {'s', 'S', 'g'}, false); f.min = wd; f.max = -1; f.prec = -1; auto s = rtext(rng, 20); HText h(s); if (rng.flip()) value(rng, h.view(), ref_text(s, f), f, "short text in a wide field"); else { char c = char('!' + rng.below(90)); f.type = 0; value(rng, c, place(std::string(1, c), f), f, "character in a wide field"); } break; }
  case 0: { auto f = gen_spec(rng, {'d', 'x', 'X', 'b', 'B', 'o', 'g'}, true); f.min = wd; f.max = -1; u64 m = rng.num(); bool neg = rng.flip(); i64 v = neg ? -i64(m >> 1) : i64(m >> 1); value(rng, v, ref_int(m >> 1, neg && (m >> 1), f), f, "wide integer"); break; }
  case 1: { std::string s(near(), 0); u64 x = rng.u(); for (size_t i = 0; i < s.size(); ++i) s[i] = char(33 + (mix64(x + i) & 63)); auto f = gen_spec(rng, {'s', 'S', 'x', 'X', 'g'}, false); f.min = f.max = 0; f.max = -1; if (rng.flip()) f.min = wd; if (rng.flip()) f.prec = rng.flip() ? near() : 1 + rng.below(s.size() + 5); HText h(s); value(rng, h.view(), ref_text(s, f), f, "large text"); break; }
  case 2: { auto f = gen_spec(rng, {'s', 'g'}, false); f.min = 0; f.max = near(); std::string s(near(), 'q'); HText h(s); value(rng, h.view(), ref_text(s, f), f, "large maximum"); break; }
  default: { // a long format: many literals and specifiers.
    std::string fmt, want, lit(near(), '.'); unsigned a = unsigned(rng.below(100)), b = 7; unsigned n = 50 + unsigned(rng.below(3000)); fmt = lit + "{{"; want = lit + "{"; for (unsigned i = 0; i < n; ++i) { switch (rng.below(4)) { case 0: fmt += "{0}"; want += std::to_string(a); break; case 1: fmt += "{1:>4}"; want += "   7"; break; case 2: fmt += "}}"; want += "}"; break; default: { std::string l(rng.below(40), 'z'); fmt += l; want += l; } } }
    HText h(fmt); T("format of %zu", fmt.size()); auto got = render(TextView(h.view()), a, b); CHECK(got == want, "long format", "%zu bytes expected %zu", got.size(), want.size()); swoc::bwf::Format pre{TextView(h.view())}; std::vector<char> buf(want.size() + 1); FixedBufferWriter w{buf.data(), buf.size()}; w.print(pre, a, b); CHECK(w.view() == want, "long format", "precompiled: %zu expected %zu", w.extent(), want.size()); obs(want); }
  }
  EV("large values");
}
SUB(many_arguments, 3000, 60000, 0) {
  int v[24]; for (auto &x : v) x = int(rng.in(-500, 500)); std::string s0 = rtext(rng, 9), s1 = rtext(rng, 9); std::string fmt, want; unsigned next = 0;
  for (u64 n = 1 + rng.below(30); n; --n) { bool imp = rng.flip(); unsigned i = imp ? next++ : unsigned(rng.below(rng.chance(1, 6) ? 300 : 26)); FSpec f; if (rng.flip()) { f.min = rng.below(12); if (rng.flip()) f.align = rng.pick<char>({'<', '>', '^'}); } fmt += f.text(rng, imp ? "" : std::to_string(i)); want += i < 24 ? ref_int(u64(std::abs(v[i])), v[i] < 0, f) : i == 24 ? ref_text(s0, f) : i == 25 ? ref_text(s1, f) : place(clip("{BAD_ARG_INDEX:" + std::to_string(i) + " of 26}", f), f); }
  HText h(fmt); T("%s", fmt.c_str()); auto tup = std::forward_as_tuple(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], s0, s1);
  swoc::LocalBufferWriter<20000> w; w.print_v(TextView(h.view()), tup); eq_text(w.view(), want, "many arguments", esc(fmt)); w.clear(); std::apply([&](auto &...a) { w.print(swoc::bwf::Format{TextView(h.view())}, a...); }, tup); eq_text(w.view(), want, "many arguments (precompiled)", esc(fmt)); obs(want); EV("calls with 26 arguments");
}
// Texts past 2^31 and 2^32 formatted into a bounded buffer: only the part that fits is readable (the rest is reserved memory, PROT_NONE), the extent still counts all of it.
SUB(huge_texts, 6000, 120000, 0) {
  constexpr size_t RES = size_t(9) << 30, PAGE = 4096; static char *base = [] { void *q = mmap(nullptr, RES, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED || mprotect(q, PAGE, PROT_READ | PROT_WRITE)) return static_cast<char *>(nullptr); for (size_t i = 0; i < PAGE; ++i) static_cast<char *>(q)[i] = char('!' + (mix64(i) % 90)); return static_cast<char *>(q); }(); if (!base) return; // no address space here: its events are missing from the evidence
  static int const bits[] = {13, 16, 20, 28, 30, 31, 32, 33}; auto some = [&]() -> size_t { return rng.flip() ? PAGE + rng.below(RES - PAGE) : (size_t(1) << rng.pick(bits)) + rng.below(9) - 4; };
  size_t n = some(), cap = rng.below(300), want = n; FSpec f; if (rng.flip()) { f.min = rng.below(2000); f.fill = rng.pick<char>({' ', '*'}); f.align = rng.pick<char>({'<', '>', '^', '='}); } if (rng.chance(1, 3)) { f.prec = i64(std::min<size_t>(some(), 0x7fffffff)); want = std::min(want, size_t(f.prec)); } if (rng.chance(1, 3)) { f.max = i64(std::min<size_t>(some(), 0x7fffffff)); want = std::min(want, size_t(f.max)); } if (rng.chance(1, 4)) f.type = 'g';
  std::string pre = rtext(rng, 9); int post = int(rng.below(1000)); auto fmt = "{}" + f.text(rng) + "|{}"; std::string ps = std::to_string(post); T("%s with a text of %zu", fmt.c_str(), n); HText h(fmt); std::vector<char> buf(cap + 1); buf[cap] = '\x7f'; FixedBufferWriter w{buf.data(), cap};
  std::string_view sv{base, n}; switch (rng.below(3)) { case 0: w.print(TextView(h.view()), pre, sv, post); break; case 1: w.print(TextView(h.view()), pre, TextView(sv), post); break; default: { swoc::bwf::Format p{TextView(h.view())}; w.print(p, pre, sv, post); } }
  CHECK(w.extent() == pre.size() + want + 1 + ps.size(), "extent", "%s of %zu characters: extent %zu expected %zu", fmt.c_str(), n, w.extent(), pre.size() + want + 1 + ps.size());
  std::string head = pre + std::string(base, std::min<size_t>(want, 400)); if (head.size() > cap) head.resize(cap); eq_text(w.view(), head, "content", esc(fmt)); CHECK(w.error() == (w.extent() > cap) && buf[cap] == '\x7f', "bounds", "error %d", int(w.error())); obs(fmt); EV("huge texts formatted");
  FixedBufferWriter o{buf.data(), cap}; o << sv << post; CHECK(o.extent() == n + ps.size(), "extent", "stream of %zu: %zu", n, o.extent()); FixedBufferWriter z{nullptr, 0}; z.print("{}", sv); CHECK(z.extent() == n, "extent", "no buffer, %zu: %zu", n, z.extent());
}
