// B06: output adapters render exactly their content.
#include "bw.h"
#include "swoc/Scalar.h"
#include <ctime>
#include <deque>
#include <stdexcept>
using namespace bw; using namespace swoc::literals; using namespace std::literals;
using swoc::MemSpan; namespace bwf = swoc::bwf;

static struct ZoneInit { ZoneInit() { setenv("TZ", "XYZ5:30", 1); tzset(); } } zone_init; // local time is 5:30 behind GMT.

static std::string rbytes(Rng &rng, size_t max) { std::string s(rng.size(max), 0); for (auto &c : s) c = char(rng.u()); return s; }
static std::string hexof(std::string_view v, bool up) { std::string r; for (char c : v) { auto d = digits(u8(c), 16, up); r += d.size() == 1 ? "0" + d : d; } return r; }
static FSpec padspec(Rng &rng) { FSpec f; if (rng.flip()) { f.min = rng.below(60); if (f.min && rng.flip()) { f.align = rng.pick<char>({'<', '>', '^'}); if (rng.flip()) f.fill = rng.pick<char>({'.', '*', '0', 'x'}); } } if (rng.chance(1, 8)) f.max = f.min + rng.below(20); return f; }
template <class V> void value(Rng &rng, V const &v, std::string const &want, FSpec const &f, char const *oracle) { auto fmt = f.text(rng); HText h(fmt); auto got = render(TextView(h.view()), v); T("%s -> %s", fmt.c_str(), got.substr(0, 200).c_str()); obs(fmt); obs(got); eq_text(got, want, oracle, "format " + esc(fmt)); }

SUB(hex_dump, 50000, 500000, 0) {
  auto s = rbytes(rng, 60); HText h(s); FSpec f = padspec(rng); if (f.min && rng.chance(1, 5)) f.align = '='; f.radix = rng.chance(1, 3); if (rng.flip()) f.type = rng.pick<char>({'x', 'X'}); bool up = f.type == 'X'; std::string body = hexof(s, up), pre = f.radix ? (up ? "0X" : "0x") : "";
  std::string want; if (f.ealign() == '=') { size_t n = pre.size() + body.size(); want = clip(pre + std::string(f.min > n ? f.min - n : 0, f.efill()) + body, f); } else want = clip(place(pre + body, f), f);
  bwf::HexDump dump{h.data(), h.size()}; value(rng, dump, want, f, "hex dump");
  // and back.
  std::string plain = render("{:x}", h.view()), upper = render("{:X}", h.view()); eq_text(plain, hexof(s, false), "hex text", "view"); HText hp(rng.flip() ? plain : upper); eq_text(render("{}", bwf::UnHex(MemSpan<char const>{hp.data(), hp.size()})), s, "unhex", esc(plain));
  size_t lim = rng.below(20); std::string mx = "{:," + std::to_string(lim) + "}"; eq_text(render(TextView(mx), bwf::UnHex(MemSpan<char const>{hp.data(), hp.size()})), s.substr(0, lim), "unhex limit", mx);
  if (plain.size()) { HText odd(plain.substr(0, plain.size() - 1)); eq_text(render("{}", bwf::UnHex(MemSpan<char const>{odd.data(), odd.size()})), s.substr(0, s.size() - 1), "unhex odd", "odd digits"); }
}
struct Pod { u32 a; u16 b; u8 c, d; };
template <size_t N> static void hex_obj(Rng &rng) { std::array<u8, N> a; for (auto &c : a) c = u8(rng.u()); bool up = rng.flip(); eq_text(render(up ? "{:X}" : "{:x}", bwf::As_Hex(a)), hexof({reinterpret_cast<char *>(a.data()), N}, up), "as hex", "object of " + std::to_string(N) + " bytes"); }
SUB(as_hex, 12000, 120000, 0) { switch (rng.below(8)) { case 0: hex_obj<1>(rng); break; case 1: hex_obj<2>(rng); break; case 2: hex_obj<7>(rng); break; case 3: hex_obj<16>(rng); break; case 4: hex_obj<17>(rng); break; case 5: hex_obj<40>(rng); break; case 6: hex_obj<128>(rng); break; default: hex_obj<513>(rng); } Pod p{u32(rng.u()), u16(rng.u()), u8(rng.u()), u8(rng.u())}; eq_text(render("{}", bwf::As_Hex(p)), hexof({reinterpret_cast<char *>(&p), sizeof p}, false), "as hex", "struct"); u64 v = rng.num(); eq_text(render("{:X}", bwf::As_Hex(v)), hexof({reinterpret_cast<char *>(&v), 8}, true), "as hex", "integer"); obs(v); }
template <class E> void span_of(Rng &rng) {
  std::vector<E> v(rng.below(8)); for (auto &e : v) { u64 x = rng.u(); memcpy(&e, &x, sizeof e); } FSpec f; f.type = rng.pick<char>({'x', 'X'}); f.radix = rng.chance(1, 3); if (rng.chance(1, 3)) f.prec = rng.below(9); bool up = f.type == 'X';
  auto groups = [&](size_t block) { std::string_view b{reinterpret_cast<char *>(v.data()), v.size() * sizeof(E)}; std::string r; bool sp = false; while (!b.empty()) { if (sp) r += ' '; sp = true; if (f.radix) r += up ? "0X" : "0x"; auto g = b.substr(0, block); r += hexof(g, up); b.remove_prefix(g.size()); } return r; };
  std::unique_ptr<E[]> p(new E[v.size() ? v.size() : 1]); if (v.size()) memcpy(p.get(), v.data(), v.size() * sizeof(E));
  value(rng, MemSpan<E>{p.get(), v.size()}, groups(f.prec > 0 ? f.prec : sizeof(E)), f, "span hex"); value(rng, MemSpan<void const>{p.get(), v.size() * sizeof(E)}, groups(f.prec > 0 ? f.prec : std::max<size_t>(1, v.size() * sizeof(E))), f, "untyped span hex"); value(rng, MemSpan<void>{p.get(), v.size() * sizeof(E)}, groups(f.prec > 0 ? f.prec : std::max<size_t>(1, v.size() * sizeof(E))), f, "untyped span hex");
  char b[80]; snprintf(b, sizeof b, "0x%zx@0x%zx", v.size() * sizeof(E), size_t(p.get())); eq_text(render("{}", MemSpan<void const>{p.get(), v.size() * sizeof(E)}), b, "span", "default"); eq_text(render("{}", MemSpan<E>{p.get(), v.size()}), b, "span", "default typed");
}
SUB(spans, 40000, 400000, 0) { switch (rng.below(4)) { case 0: span_of<u8>(rng); break; case 1: span_of<u16>(rng); break; case 2: span_of<u32>(rng); break; default: span_of<u64>(rng); } }
SUB(patterns, 30000, 300000, 0) {
  auto s = rbytes(rng, 10); int n = rng.chance(1, 10) ? -int(rng.below(5)) : rng.chance(1, 10) ? int(rng.below(300)) : int(rng.below(12)); std::string want; for (int i = 0; i < n; ++i) want += s; HText h(s); FSpec f = padspec(rng); value(rng, bwf::Pattern{n, h.view()}, clip(place(want, f), f), f, "pattern");
}
SUB(selection, 50000, 500000, 0) {
  auto word = [&] { std::string s(rng.below(3) ? rng.below(8) : 0, 0); for (auto &c : s) c = char('a' + rng.below(26)); return s; };
  { std::string x(rng.below(4), 0), y(rng.below(4), ' '); for (auto &c : x) c = rng.pick<char>({0, ' ', 'x', '\xff'}); std::string z = word(); std::string w = !x.empty() ? x : !y.empty() ? y : z; FSpec nf; value(rng, bwf::FirstOf(std::string_view(x), y, TextView(z)), w, nf, "first of bytes"); value(rng, bwf::FirstOf(TextView(), std::string_view(x)), x, nf, "first of bytes"); value(rng, bwf::Optional("<{}>", std::string_view(x)), x.empty() ? "" : "<" + x + ">", nf, "optional bytes"); }
  std::string a = word(), b = word(), c = word(); FSpec f = padspec(rng); auto fit = [&](std::string const &s) { return clip(place(s, f), f); };
  std::string first = !a.empty() ? a : !b.empty() ? b : c; value(rng, bwf::FirstOf(a, b, c), fit(first), f, "first of"); value(rng, bwf::FirstOf(nullptr, b.c_str(), TextView(c)), fit(!b.empty() ? b : c), f, "first of"); char const *np = nullptr; value(rng, bwf::FirstOf(np, ""sv, std::string_view(a)), fit(a), f, "first of");
  bool flag = rng.flip(); int k = int(rng.u()); value(rng, bwf::If(flag, "[{}:{}]", k, a), fit(flag ? "[" + std::to_string(k) + ":" + a + "]" : ""), f, "if"); value(rng, bwf::If(flag, "plain"), fit(flag ? "plain" : ""), f, "if");
  value(rng, bwf::Optional(" {}.", a), fit(a.empty() ? "" : " " + a + "."), f, "optional string"); value(rng, bwf::Optional("<{}>", std::string_view(b)), fit(b.empty() ? "" : "<" + b + ">"), f, "optional view"); value(rng, bwf::Optional("<{}>", TextView(c)), fit(c.empty() ? "" : "<" + c + ">"), f, "optional text view");
  char const *cs = flag ? "cstr" : nullptr; value(rng, bwf::Optional("<{}>", cs), fit(flag ? "<cstr>" : ""), f, "optional pointer"); value(rng, bwf::Optional("<{}>", std::string(a)), fit(a.empty() ? "" : "<" + a + ">"), f, "optional temporary"); int z = int(rng.below(3)); value(rng, bwf::Optional("<{}>", z), fit(z ? "<" + std::to_string(z) + ">" : ""), f, "optional int");
  auto sub = bwf::SubText("{1}-{0}", std::forward_as_tuple(a, k)); value(rng, sub, fit(std::to_string(k) + "-" + a), f, "subtext"); eq_text(render("({})({})", sub, bwf::If(!flag, "x{}", b)), "(" + std::to_string(k) + "-" + a + ")(" + (flag ? "" : "x" + b) + ")", "nested", "sub text");
  CHECK(bool(sub) && !!sub, "sub text state", "enabled"); { auto q = bwf::If(flag, "x{}", b); CHECK(bool(q) == flag && !q == !flag, "sub text state", "flag %d gives %d", flag, bool(q)); auto o = bwf::Optional("<{}>", a); CHECK(bool(o) == !a.empty() && !o == a.empty(), "sub text state", "optional of %zu characters", a.size()); }
  std::bitset<5> bits(rng.below(32)); value(rng, bwf::Optional("<{}>", bits), fit("<" + [&] { std::string r; for (int i = 0; i < 5; ++i) r += bits[i] ? '1' : '0'; return r; }() + ">"), f, "optional always"); std::chrono::seconds sec(long(rng.below(3))); value(rng, bwf::Optional("<{}>", sec), fit("<" + std::to_string(sec.count()) + ">"), f, "optional always");
  EV("selections");
}
// Formatting a single value by a specifier, without a format string.
SUB(direct_spec, 20000, 200000, 0) {
  auto f = gen_spec(rng, {'d', 'x', 's'}, false); f.zero = false; bwf::Spec sp; std::string st = ":" + f.style(rng); HText h(st); CHECK(sp.parse(TextView(h.view())) , "spec parse", "%s", esc(st).c_str()); u64 v = rng.num(); std::string t = "Text";
  auto run = [&](auto &&g) { std::vector<char> b(300); FixedBufferWriter w{b.data(), b.size()}; g(w); return std::string(w.view()); };
  // Alignment is applied by print, the value is rendered unaligned.
  FSpec u = f; u.min = 0; u.max = -1; u.align = 0; FSpec g = f; (void)g;
  eq_text(run([&](swoc::BufferWriter &w) { u64 const c = v; w.format(bwf::Spec::DEFAULT, c); }), std::to_string(v), "direct", "const value"); eq_text(run([&](swoc::BufferWriter &w) { w.format(bwf::Spec::DEFAULT, u64(v)); }), std::to_string(v), "direct", "temporary value"); eq_text(run([&](swoc::BufferWriter &w) { w.format(bwf::Spec::DEFAULT, t); }), t, "direct", "text");
  eq_text(run([&](swoc::BufferWriter &w) { w.format(bwf::Spec::DEFAULT, "literal"); }), "literal", "direct", "literal"); char arr[] = "array"; eq_text(render("{}|{}", arr, "lit"), "array|lit", "direct", "arrays"); EV("direct values"); obs(v);
}
template <class I> void atom(Rng &rng) { I v; u64 r = rng.num(); memcpy(&v, &r, sizeof v); std::atomic<I> at{v}; bool neg = v < 0; auto f = gen_spec(rng, {'d', 'x', 'b', 'o'}, true); value(rng, at, ref_int(neg ? u64(0) - u64(i64(v)) : u64(v), neg, f), f, "atomic"); }
using KB = swoc::Scalar<1024, long>; struct btag { static constexpr std::string_view label = " bytes"; }; using LB = swoc::Scalar<10, int, btag>;
SUB(wrappers, 60000, 600000, 0) {
  switch (rng.below(7)) {
  case 0: atom<int>(rng); break; case 1: atom<u64>(rng); break; case 2: atom<short>(rng); break;
  case 3: { std::bitset<13> b(rng.u()); std::string w; for (int i = 0; i < 13; ++i) w += b[i] ? '1' : '0'; FSpec f = padspec(rng); value(rng, b, clip(place(w, f), f), f, "bitset"); std::bitset<70> big; std::string w2; for (int i = 0; i < 70; ++i) { big[i] = rng.flip(); w2 += big[i] ? '1' : '0'; } eq_text(render("{}", big), w2, "bitset", "70 bits"); break; }
  case 4: { i64 n = i64(rng.num()); FSpec f = gen_spec(rng, {'d', 'x'}, true); bool neg = n < 0; auto w = ref_int(neg ? 0 - u64(n) : u64(n), neg, f); value(rng, std::chrono::nanoseconds(n), w, f, "duration"); value(rng, std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>(std::chrono::nanoseconds(n)), w, f, "time point"); value(rng, std::chrono::duration<i64, std::ratio<60>>(n), w, f, "duration"); break; }
  case 5: { long n = long(rng.below(1ull << 40)); FSpec f; eq_text(render("{}", KB(n)), std::to_string(u128(n) * 1024 <= ~0ull ? u64(n) * 1024 : 0), "scalar", "value is in units"); int m = int(rng.below(1000)); eq_text(render("{}", LB(m)), std::to_string(m * 10) + " bytes", "scalar label", "label"); eq_text(render("{:d}", LB(m)), std::to_string(m * 10), "scalar label", "numeric"); { FSpec g = gen_spec(rng, {}, false); g.min = 0; bool ng = rng.flip(); std::string body = (g.sign == ' ' ? "" : ng && m ? "-" : g.sign == '+' ? "+" : "") + std::to_string(m * 10) + " bytes"; value(rng, LB(ng ? -m : m), clip(place(body, g), g), g, "scalar with label"); FSpec h = gen_spec(rng, {'d', 'x', 'X', 'o', 'b', 'B'}, true); if (h.type) value(rng, LB(m), ref_int(u64(m) * 10, false, h), h, "scalar numeric"); } obs(u64(n)); break; }
  default: { std::runtime_error x("the reason"); eq_text(render("{}", x), "Exception - the reason", "exception", "text"); std::exception const &y = x; eq_text(render("{}", y), "Exception - the reason", "exception", "text"); obs(u64(1)); }
  }
}
// proleptic Gregorian date from a day count.
static void civil(i64 z, i64 &y, unsigned &m, unsigned &d) { z += 719468; i64 era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = unsigned(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = i64(yoe) + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2; }
SUB(dates, 40000, 400000, 0) {
  static char const *MON[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  i64 t = rng.flip() ? i64(rng.below(1ull << 32)) : rng.in(-2000000000ll, 200000000000ll); bool local = rng.flip(); i64 u = local ? t - (5 * 3600 + 1800) : t; i64 day = u / 86400, s = u % 86400; if (s < 0) { s += 86400; --day; } i64 y; unsigned m, d; civil(day, y, m, d);
  char b[200]; snprintf(b, sizeof b, "%lld %s %02u %02lld:%02lld:%02lld", (long long)y, MON[m - 1], d, (long long)(s / 3600), (long long)(s / 60 % 60), (long long)(s % 60)); FSpec f = padspec(rng); if (local) { f.has_ext = true; f.ext = "local"; } else if (rng.chance(1, 4)) { f.has_ext = true; f.ext = "gmt"; } auto fit = [&](std::string const &x) { return clip(place(x, f), f); };
  value(rng, bwf::Date(t), fit(b), f, "date"); snprintf(b, sizeof b, "[%lld-%02u-%02uT%02lld]", (long long)y, m, d, (long long)(s / 3600)); value(rng, bwf::Date(t, "[%Y-%m-%dT%H]"), fit(b), f, "date");
  FSpec g = f; g.has_ext = false; g.type = 'd'; if (rng.flip()) value(rng, bwf::Date(t), ref_int(t < 0 ? 0 - u64(t) : u64(t), t < 0, g), g, "date number");
  if (rng.chance(1, 4)) { // long and empty outputs, exactly bounded format text.
    std::string fm, w; size_t n = rng.below(120); for (size_t i = 0; i < n; ++i) { fm += "%Y,"; w += std::to_string(y) + ","; } if (y >= 1000) { HText hf(fm + '\0'); swoc::TextView v{hf.data(), n * 3}; if (n) eq_text(render("{}", bwf::Date(t - (t - u) , v)), [&] { i64 yy; unsigned mm, dd; i64 q = u / 86400 - (u % 86400 < 0); civil(q, yy, mm, dd); std::string r; for (size_t i = 0; i < n; ++i) r += std::to_string(yy) + ","; return r; }(), "date long", "long output");
      size_t cap = rng.below(w.size() + 2); std::vector<char> buf(cap); FixedBufferWriter tw{buf.data(), cap}; tw.print("{}", bwf::Date(u, v)); CHECK(tw.extent() == w.size(), "date long", "extent %zu expected %zu", tw.extent(), w.size()); eq_text(tw.view(), w.substr(0, cap), "date long", "clipped"); EV("long dates"); }
    auto t0 = time(nullptr); auto now = render("{:d}", bwf::Date()); auto t1 = time(nullptr); i64 tn = strtoll(now.c_str(), nullptr, 10); CHECK(tn + 1 >= t0 && tn <= t1 + 1, "date now", "default date is %s at %lld", now.c_str(), (long long)t0); // the clocks may differ by a tick
    { bool threw = false; char nt[] = "%Y?"; try { render("{}", bwf::Date(t, std::string_view(nt, 2))); } catch (std::invalid_argument const &) { threw = true; } CHECK(threw, "date unterminated", "a format without terminator was used"); }
    HText e(""); eq_text(render("<{}>", bwf::Date(t, e.view())), "<>", "date empty", "empty format");
  }
}
static bool same_errno_name(std::string const &n, int e) {
  if (e == 0) return n == "SUCCESS"; char const *p = strerrorname_np(e); if (!p) return true; if (n == p) return true;
  struct { int e; char const *n; } alias[] = {{EOPNOTSUPP, "EOPNOTSUPP"}, {ENOTSUP, "ENOTSUP"}, {EAGAIN, "EWOULDBLOCK"}, {EDEADLK, "EDEADLOCK"}}; for (auto &a : alias) if (a.e == e && n == a.n) return true; return false;
}
SUB(errnos, 6000, 60000, 0) {
  int e = rng.chance(1, 8) ? int(rng.in(-20, 4000)) : int(rng.below(134)); std::string sh = render("{:s:s}", bwf::Errno(e)), lg = strerror(e), num = "[" + std::to_string(e) + "]";
  if (e >= 0 && e <= 133) CHECK(same_errno_name(sh, e), "errno name", "%d printed as %s", e, sh.c_str()); else eq_text(sh, "Unknown", "errno name", std::to_string(e));
  eq_text(render("{}", bwf::Errno(e)), sh + ": " + lg + " " + num, "errno", "default"); eq_text(render("{:d}", bwf::Errno(e)), num, "errno", "d"); eq_text(render("{:s}", bwf::Errno(e)), sh + ": " + lg, "errno", "s"); eq_text(render("{:s:sl}", bwf::Errno(e)), sh + ": " + lg, "errno", "s:sl"); eq_text(render("{:s:l}", bwf::Errno(e)), lg, "errno", "s:l"); eq_text(render("{::s}", bwf::Errno(e)), sh + " " + num, "errno", "::s"); eq_text(render("{::l}", bwf::Errno(e)), lg + " " + num, "errno", "::l");
  errno = e; eq_text(render("{}", bwf::Errno()), sh + ": " + lg + " " + num, "errno", "current errno"); FSpec f = padspec(rng); f.has_ext = true; f.ext = "s"; f.type = 's'; value(rng, bwf::Errno(e), clip(place(sh, f), f), f, "errno padded");
  if (e >= 0 && e <= 133) { std::error_code g(e, std::generic_category()), s(e, std::system_category()); for (auto &c : {g, s}) { eq_text(render("{}", c), sh + " " + num, "error code", "default"); eq_text(render("{:d}", c), std::to_string(e), "error code", "number"); auto t = render("{:s}", c); std::string l = sh; for (auto &x : l) x = char(tolower(x)); for (auto &x : t) x = char(tolower(x)); eq_text(t, l, "error code", "text"); } }
  std::error_code io(1, std::iostream_category()); eq_text(render("{}", io), io.message() + " [1]", "error code", "other category"); EV("errno values");
}

// Scale: dumps, patterns, dates and selected texts far beyond a page.
SUB(large, 400, 10000, 0) {
  size_t n = (size_t(1) << rng.in(7, 16)) + rng.below(40) - 20; std::string s(n, 0); u64 x = rng.u(); for (size_t i = 0; i < n; ++i) s[i] = char(mix64(x + i)); bool up = rng.flip(); HText h(s); FSpec f; f.type = up ? 'X' : 'x'; f.radix = rng.flip(); if (rng.flip()) { f.min = 2 * n + rng.below(100) - 50; f.align = rng.pick<char>({'<', '>', '^'}); f.fill = '.'; } std::string pre = f.radix ? (up ? "0X" : "0x") : "";
  auto bits = [&](auto &&b) { std::string w(b.size(), '0'); for (size_t i = 0; i < b.size(); ++i) if (s[i % n] & 1) { b[i] = true; w[i] = '1'; } FSpec g; if (rng.flip()) { g.min = b.size() + rng.below(100) - 50; g.align = rng.pick<char>({'<', '>', '^'}); g.fill = '.'; } value(rng, b, place(w, g), g, "bitset"); };
  switch (rng.below(6)) {
  case 5: switch (rng.below(4)) { case 0: bits(std::bitset<256>()); break; case 1: bits(std::bitset<300>()); break; case 2: bits(std::bitset<4097>()); break; default: { static std::bitset<66000> big; big.reset(); bits(big); } } break;
  case 0: value(rng, bwf::HexDump{h.data(), n}, clip(place(pre + hexof(s, up), f), f), f, "hex dump"); break;
  case 1: { std::string hx = hexof(s, up); HText hh(hx); auto got = render("{}", bwf::UnHex(MemSpan<char const>{hh.data(), hh.size()})); CHECK(got == s, "unhex", "%zu bytes expected %zu", got.size(), n); break; }
  case 2: { size_t block = rng.flip() ? 1 + rng.below(20) : 1 + rng.below(n + 10); f.prec = int(block); std::string r; for (size_t i = 0; i < n; i += block) { if (i) r += ' '; r += pre + hexof(std::string_view(s).substr(i, block), up); } f.min = 0; f.align = 0; f.fill = 0; value(rng, MemSpan<void const>{h.data(), n}, r, f, "span hex"); break; }
  case 3: { std::string p = rng.pick<std::string>({"x", "ab", "-=+"}); std::string want; for (size_t i = 0; i < n; ++i) want += p; FSpec g; value(rng, bwf::Pattern{int(n), p}, want, g, "pattern"); break; }
  default: { for (auto &c : s) c = char('a' + (c & 15)); HText hs(s); FSpec g; value(rng, bwf::FirstOf(nullptr, ""sv, hs.view()), s, g, "first of"); value(rng, bwf::Optional("<{}>", hs.view()), "<" + s + ">", g, "optional"); value(rng, bwf::If(true, "{1}{0}{1}", hs.view(), 9), "9" + s + "9", g, "if"); }
  }
  EV("large adapters");
}
