// B04: output into any capacity is an exact prefix, the extent is the full length; printing to strings is exact.
#include "bw.h"
#include "ip.h"
#include "swoc/ArenaWriter.h"
#include "swoc/Errata.h"
#include "swoc/bwf_ip.h"
#include "swoc/swoc_ip.h"
using namespace bw; using namespace swoc::literals; using namespace std::literals;
using swoc::bwf::Format;

template <class... A> void every(Rng &rng, TextView fmt, A const &...a) {
  std::string full = render(fmt, a...); size_t n = full.size(); T("%s -> %s", std::string(fmt).c_str(), esc(full, 100).c_str());
  // direct: every capacity up to the size (sampled when long), in an exactly sized allocation.
  for (size_t k = 0; k <= 40; ++k) {
    size_t cap = n <= 40 ? k : (k < 10 ? k : k > 34 ? n + 3 - (40 - k) : rng.below(n + 4)); if (cap > n + 3) break;
    HText h(std::string(cap, '\x7f')); FixedBufferWriter w{h.data(), cap}; w.print(fmt, a...);
    CHECK(w.extent() == n, "extent", "capacity %zu: extent %zu, full output is %zu, for %s", cap, w.extent(), n, esc(fmt).c_str()); CHECK(w.error() == (n > cap), "error", "capacity %zu size %zu error %d", cap, n, int(w.error()));
    if (w.view() != std::string_view(full).substr(0, cap)) eq_text(w.view(), std::string_view(full).substr(0, cap), "prefix", "capacity " + std::to_string(cap) + " format " + esc(fmt)); EV("capacities tried");
    if (k == 3) { // appended after other output and clipped by a restriction
      std::string pre(rng.below(6), '='); size_t room = rng.below(n + 2), res = rng.below(9); HText g(std::string(pre.size() + room + res, '\x7e')); FixedBufferWriter v{g.data(), g.size()}; v.write(pre); v.restrict(res); v.print(fmt, a...);
      CHECK(v.extent() == pre.size() + n, "extent", "after a prefix"); eq_text(v.view(), (pre + full).substr(0, pre.size() + room), "restricted prefix", esc(fmt)); for (size_t i = 0; i < res; ++i) CHECK(g.data()[pre.size() + room + i] == '\x7e', "restricted area", "byte %zu of the restricted area was written by %s", i, esc(fmt).c_str());
      v.restore(res); if (n <= room) { v.write("#"); eq_text(v.view().prefix(pre.size() + n + 1), (pre + full + "#").substr(0, pre.size() + room + res), "after restore", esc(fmt)); } }
  }
  // retry protocol: measure, allocate, print.
  FixedBufferWriter probe{nullptr}; size_t need = probe.print(fmt, a...).extent(); CHECK(need == n, "measure", "measured %zu, needed %zu", need, n); HText h(std::string(need, '.')); FixedBufferWriter w{h.data(), need}; w.print(fmt, a...); CHECK(!w.error(), "measure", "measured size was too small"); eq_text(w.view(), full, "measure", esc(fmt));
  // strings of any prior size and capacity
  for (int i = 0; i < 3; ++i) {
    std::string s; if (rng.flip()) s.reserve(rng.below(2 * n + 40)); s.assign(rng.size(n + 40), 'Q'); auto c0 = s.capacity(); auto &r = swoc::bwprint(s, fmt, a...); CHECK(&r == &s, "bwprint", "wrong string returned"); eq_text(s, full, "bwprint", "capacity " + std::to_string(c0) + " format " + esc(fmt)); CHECK(s.c_str()[s.size()] == 0, "bwprint", "terminator lost"); EV("string prints");
    s.shrink_to_fit(); if (rng.flip()) s.reserve(s.size() + rng.below(n + 20)); std::string before = s; before.resize(rng.size(before.size())); if (rng.flip()) { before = std::string(rng.below(30), 'P'); } s = before; swoc::bwappend(s, fmt, a...); eq_text(s, before + full, "bwappend", esc(fmt)); CHECK(s.c_str()[s.size()] == 0, "bwappend", "terminator lost");
    std::string t; t.reserve(rng.below(50)); swoc::bwappend(t, fmt, a...); swoc::bwappend(t, fmt, a...); eq_text(t, full + full, "bwappend", "twice " + esc(fmt));
    std::string u(rng.below(20), 'u'); swoc::bwprint_v(u, fmt, std::forward_as_tuple(a...)); eq_text(u, full, "bwprint_v", esc(fmt)); }
  // growing writer
  swoc::MemArena arena{size_t(rng.below(60))}; swoc::ArenaWriter aw{arena}; std::string pre(rng.below(50), '-'); aw.write(pre); aw.print(fmt, a...); CHECK(!aw.error(), "arena writer", "in error"); eq_text(aw.view(), pre + full, "arena writer", esc(fmt));
  obs(fmt); obs(full);
}
static std::string seg(Rng &rng) { auto f = gen_spec(rng, {'d', 'x', 'X', 's', 'S', 'g', 'b', 'o'}, true); if (rng.chance(1, 6)) f.prec = rng.below(12); return f.text(rng, rng.chance(1, 3) ? std::to_string(rng.below(4)) : ""); }
static std::string fmts(Rng &rng) { std::string s; for (u64 n = 1 + rng.below(3); n; --n) { if (rng.chance(1, 3)) s += rng.pick({"lit ", "{{", "a}}b", ", "}); s += seg(rng); } return s; }
static std::string str(Rng &rng, size_t max) { std::string s(rng.size(max), 0); for (auto &c : s) c = char('a' + rng.below(26)); return s; }

SUB(mixed, 12000, 200000, 0) { auto f = fmts(rng); HText h(f); auto s = str(rng, 30); every(rng, TextView(h.view()), rng.num(), s, -i64(rng.below(100000)), rng.flip()); }
SUB(floats, 6000, 60000, 0) { double d = std::ldexp(double(rng.u() >> 11), -int(rng.below(110))); if (rng.flip()) d = -d; FSpec f; if (rng.flip()) f.min = rng.below(40); if (f.min && rng.flip()) f.align = rng.pick<char>({'<', '>', '^', '='}); if (rng.flip()) f.prec = rng.below(30); auto t = f.text(rng); HText h(t); every(rng, TextView(h.view()), d); }
SUB(bytes, 6000, 60000, 0) {
  auto s = str(rng, 30); FSpec f = gen_spec(rng, {'x', 'X'}, true); if (rng.chance(1, 3)) f.prec = 1 + rng.below(5); if (f.type == 0) f.type = 'x'; auto t = f.text(rng); HText h(t);
  every(rng, TextView(h.view()), swoc::MemSpan<void const>{s.data(), s.size()}); std::vector<u32> v(rng.below(6), u32(rng.u())); every(rng, TextView(h.view()), swoc::MemSpan<u32>{v.data(), v.size()}); every(rng, TextView(h.view()), swoc::bwf::As_Hex(f.min)); every(rng, TextView(h.view()), std::string_view(s));
}
SUB(adapters, 8000, 80000, 0) {
  FSpec f; if (rng.flip()) f.min = rng.below(50); if (f.min && rng.flip()) f.align = rng.pick<char>({'<', '>', '^'}); if (rng.chance(1, 6)) f.max = f.min + rng.below(20); if (rng.chance(1, 4)) f.type = rng.pick<char>({'d', 's', 'x'}); auto t = f.text(rng); HText h(t); TextView v{h.view()}; auto s = str(rng, 8);
  switch (rng.below(9)) {
  case 0: every(rng, v, swoc::bwf::Errno(int(rng.below(140)))); break;
  case 1: every(rng, v, swoc::bwf::Pattern{int(rng.below(9)), s}); break;
  case 2: every(rng, v, swoc::bwf::Date(rng.below(1ull << 33), "%Y %b %d %H:%M:%S and some more text for good measure")); break;
  case 3: { std::bitset<17> b(rng.u()); every(rng, v, b); break; }
  case 4: every(rng, v, swoc::bwf::If(rng.flip(), "value {} {:>8}", 5, s)); break;
  case 5: every(rng, v, std::error_code(int(rng.below(140)), std::generic_category())); break;
  case 6: { std::string hx; for (u64 n = rng.below(12); n; --n) hx += "0123456789abcdef"[rng.below(16)]; every(rng, v, swoc::bwf::UnHex(swoc::MemSpan<char const>{hx.data(), hx.size()})); break; }
  case 7: every(rng, v, std::chrono::seconds(rng.below(100000))); break;
  default: every(rng, v, swoc::bwf::FirstOf("", s, "other")); break;
  }
}
SUB(addresses, 8000, 80000, 0) {
  FSpec f; if (rng.flip()) f.min = rng.below(60); if (f.min && rng.flip()) f.align = rng.pick<char>({'<', '>', '^'}); if (rng.chance(1, 8)) f.max = f.min + rng.below(20); if (rng.chance(1, 4)) f.type = rng.pick<char>({'d', 'x', 'X'}); if (rng.flip()) { f.has_ext = true; f.ext = rng.pick({"=", "a", "af", "=ap", " =apf", "f", "p", "c", ""}); } auto t = f.text(rng); HText h(t); TextView v{h.view()};
  u64 hi = rng.flip() ? rng.u() : 0, lo = rng.u() >> (8 * rng.below(8)); swoc::IP6Addr a6 = mk6((u128(hi) << 64) | lo); swoc::IP4Addr a4{in_addr_t(rng.u())};
  switch (rng.below(6)) { case 0: every(rng, v, a4); break; case 1: every(rng, v, a6); break; case 2: { swoc::IPEndpoint ep; swoc::IPAddr x = rng.flip() ? swoc::IPAddr(a4) : swoc::IPAddr(a6); ep.assign(x, htons(u16(rng.u()))); every(rng, v, ep); break; } case 3: every(rng, v, swoc::IPAddr(a6)); break;
  case 4: every(rng, v, swoc::IPRange(swoc::IP6Range{a6, mk6(~u128(0))})); break; default: every(rng, v, swoc::IPSrv{a4, in_port_t(rng.below(3))}); }
}
SUB(errata, 2000, 20000, 0) { swoc::Errata e; for (u64 n = rng.below(4); n; --n) e.note("note {} {}", n, str(rng, 10)); every(rng, "{}"_tv, e); }
// Scale: outputs of kilobytes and megabytes, at every kind of capacity around the length and around powers of two.
SUB(large, 240, 6000, 0) {
  size_t n = (size_t(1) << rng.in(7, 19)) + rng.below(20) - 10; std::string big(n, 0); u64 x = rng.u(); for (size_t i = 0; i < n; ++i) big[i] = char('a' + (x >> (i % 59) & 15)); u64 num = rng.num(); size_t wd = rng.flip() ? rng.below(70000) : rng.below(300); auto fmt = rng.pick<std::string>({"{}", "<{}:{}>", "{1}{0}", "{0}{0}", "{:>" + std::to_string(wd) + "}{}", "{0:x}-{1:*^" + std::to_string(wd) + "}", "{1:" + std::to_string(wd) + "}{1}{0}"}); HText fh(fmt); TextView f(fh.view()); T("%s of %zu", fmt.c_str(), n);
  std::string want; { auto pad = [&](std::string s, char al, char fc) { size_t d = s.size() < wd ? wd - s.size() : 0; size_t l = al == '>' ? d : al == '^' ? d / 2 : 0; return std::string(l, fc) + s + std::string(d - l, fc); }; auto ns = std::to_string(num); if (fmt == "{}") want = big; else if (fmt[0] == '<') want = "<" + big + ":" + ns + ">"; else if (fmt == "{1}{0}") want = ns + big; else if (fmt == "{0}{0}") want = big + big; else if (fmt[1] == ':') want = pad(big, '>', ' ') + ns; else if (fmt[1] == '0') { for (char c : big) { want += "0123456789abcdef"[u8(c) >> 4]; want += "0123456789abcdef"[u8(c) & 15]; } want += "-" + pad(ns, '^', '*'); } else want = pad(ns, '<', ' ') + ns + big; }
  auto alone = render(f, std::string_view(big), num); CHECK(alone == want, "large", "%s of %zu bytes: output of %zu expected %zu differs", fmt.c_str(), n, alone.size(), want.size());
  for (int k = 0; k < 5; ++k) { size_t cap = rng.pick<size_t>({want.size(), want.size() - 1, want.size() + 1, rng.below(want.size() + 2), size_t(1) << rng.in(6, 17), (size_t(1) << rng.in(6, 17)) - 1, 0}); HText h(std::string(cap, '~')); FixedBufferWriter w{h.data(), cap}; w.print(f, std::string_view(big), num); CHECK(w.extent() == want.size() && w.error() == (want.size() > cap) && w.view() == std::string_view(want).substr(0, cap), "large prefix", "capacity %zu of %zu: extent %zu", cap, want.size(), w.extent()); EV("capacities tried"); }
  std::string s; if (rng.flip()) s.reserve(rng.below(2 * want.size())); s.assign(rng.below(rng.flip() ? 100 : want.size()), 'Q'); swoc::bwprint(s, f, std::string_view(big), num); CHECK(s == want, "large bwprint", "%zu bytes expected %zu", s.size(), want.size()); std::string a(rng.below(rng.flip() ? 100 : 100000), 'p'); if (rng.flip()) a.shrink_to_fit(); std::string pre = a; swoc::bwappend(a, f, std::string_view(big), num); CHECK(a.size() == pre.size() + want.size() && std::string_view(a).substr(0, pre.size()) == pre && std::string_view(a).substr(pre.size()) == want, "large bwappend", "%zu after %zu", a.size(), pre.size());
  swoc::MemArena arena{size_t(rng.below(60))}; swoc::ArenaWriter aw{arena}; aw.write(std::string_view(pre).substr(0, 100)); aw.print(f, std::string_view(big), num); CHECK(!aw.error() && aw.view() == std::string(pre.substr(0, 100)) + want, "large arena writer", "%zu", aw.extent()); obs(u64(want.size())); EV("large outputs");
}
