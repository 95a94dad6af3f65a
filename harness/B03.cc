// B03: arbitrary format text is safe, direct and precompiled use agree, names bind to the latest generator.
#include "bw.h"
#include "swoc/bwf_ip.h"
#include "swoc/swoc_ip.h"
#include <map>
using namespace bw; using namespace swoc::literals; using namespace std::literals;
using swoc::bwf::ContextNames; using swoc::bwf::ExternalNames; using swoc::bwf::Format; using swoc::bwf::Spec;

// Structure of the text as far as braces go: false if it must be refused. Specifier texts are collected.
static bool scan(std::string_view s, std::vector<std::string_view> &specs, bool &any) {
  for (size_t i = 0; i < s.size();) {
    if (s[i] != '{' && s[i] != '}') { ++i; continue; }
    if (i + 1 < s.size() && s[i + 1] == s[i]) { i += 2; continue; }
    if (s[i] == '}') return false;
    auto e = s.find('}', i + 1); if (e == s.npos) return false;
    specs.push_back(s.substr(i + 1, e - i - 1)); any = true; i = e + 1;
  }
  return true;
}
// Keep widths printable: long digit runs are cut, except in the name part where they are harmless.
static std::string tame(std::string s) {
  std::string r; size_t run = 0; bool name = false;
  for (char c : s) { if (c == '{') name = true; else if (c == ':' || c == '}') name = false; if (c >= '0' && c <= '9') { if (++run > 4 && !name) continue; } else run = 0; r += c; }
  return r;
}
static std::string fuzz_fmt(Rng &rng) {
  static char const *TOK[] = {"{}", "{0}", "{1}", "{2:", "{:", "}", "{", "{{", "}}", ":", "<", ">", "^", "=", "+", "-", " ", "#", "0", ".", ",", "x", "X", "s", "S", "d", "p", "%", "%2", "%3f>", "%zz<", "12", "3", ".5", ",7", "{name}", "{now", "{99", "{4294967296}", "{18446744073709551616}", "{2147483648}", "{-1}", "\xff", "\x80", "\xc3\xa9", "abc", "::", ":a", ":=", ":x=ap", "{:\xff<", "{:\xff", "{:10", "{:>5", "{:^9,4", "{:.3,2x}", "{:#x}", "\n", "g", "o", "b", "B", "P"};
  std::string s;
  switch (rng.below(4)) {
  case 0: { s.resize(rng.below(24)); for (auto &c : s) c = char(rng.u()); break; }
  case 1: for (u64 n = rng.below(14); n; --n) s += rng.pick(TOK); break;
  case 2: { for (u64 n = 1 + rng.below(4); n; --n) { auto f = gen_spec(rng, {'d', 'x', 'X', 's', 'S', 'g', 'b', 'o', 'p', 'P'}, true); if (rng.chance(1, 4)) f.prec = rng.below(30); if (rng.chance(1, 3)) { f.has_ext = true; f.ext = rng.pick({"=", "a", "::", "ls", "c", "\xfe", "local"}); } s += f.text(rng, rng.chance(1, 3) ? std::to_string(rng.below(12)) : ""); if (rng.flip()) s += rng.pick(TOK); } 
    if (s.size() && rng.chance(1, 2)) { size_t i = rng.below(s.size()); switch (rng.below(3)) { case 0: s[i] = char(rng.u()); break; case 1: s.erase(i, 1); break; default: s.insert(i, rng.pick(TOK)); } } break; }
  default: for (u64 n = rng.below(20); n; --n) s += rng.pick<char>({'{', '}', ':', '0', '9', '.', ',', '%', '#', '<', '=', ' ', 'x', 's', '-', '\xe9', 'a', '{', '}'}); break;
  }
  return tame(s);
}
struct Result { bool threw = false; std::string text; bool operator==(Result const &o) const { return threw == o.threw && text == o.text; } };
template <class F> static Result attempt(F &&f) { Result r; try { r.text = f(); } catch (std::invalid_argument const &) { r.threw = true; } return r; }

template <class... A> void fuzz(Rng &rng, std::string const &fmt, A const &...a) {
  HText h(fmt); TextView v{h.view()};
  auto direct = attempt([&] { return render(v, a...); });
  std::vector<std::string_view> specs; bool any = false; bool ok = scan(h.view(), specs, any);
  T("%s -> %s%s", esc(fmt).c_str(), direct.threw ? "throws " : "", esc(direct.text, 80).c_str());
  if (!ok) CHECK(direct.threw, "malformed accepted", "%s with unbalanced braces gave %s", esc(fmt).c_str(), esc(direct.text).c_str());
  if (ok && !any) { CHECK(!direct.threw, "literal refused", "%s", esc(fmt).c_str()); std::string want; for (size_t i = 0; i < fmt.size(); ++i) { want += fmt[i]; if (fmt[i] == '{' || fmt[i] == '}') ++i; } eq_text(direct.text, want, "literal", esc(fmt)); EV("pure literals"); }
  auto pre = attempt([&] { Format f{v}; static thread_local std::vector<char> b(1 << 16); FixedBufferWriter w{b.data(), b.size()}; w.print(f, a...); CHECK(!w.error(), "size", "too large"); std::string r(w.view());
    // a precompiled format is reusable and movable.
    if (rng.chance(1, 4)) { Format g{std::move(f)}; FixedBufferWriter w2{b.data(), b.size()}; w2.print(g, a...); eq_text(w2.view(), r, "moved format", esc(fmt)); w2.clear(); w2.print(g, a...); eq_text(w2.view(), r, "reused format", esc(fmt)); }
    return r; });
  CHECK(pre.threw == direct.threw, "precompiled", "%s: direct %s but precompiled %s", esc(fmt).c_str(), direct.threw ? "throws" : "succeeds", pre.threw ? "throws" : "succeeds");
  eq_text(pre.text, direct.text, "precompiled", esc(fmt));
  auto tup = attempt([&] { static thread_local std::vector<char> b(1 << 16); FixedBufferWriter w{b.data(), b.size()}; w.print_v(v, std::forward_as_tuple(a...)); return std::string(w.view()); });
  CHECK(tup == direct, "tuple form", "%s differs", esc(fmt).c_str());
  size_t cap = rng.below(12); std::vector<char> tiny(cap); // any capacity
  auto small = attempt([&] { FixedBufferWriter w{tiny.data(), cap}; w.print(v, a...); CHECK(w.extent() == direct.text.size(), "extent", "%s in %zu bytes: extent %zu expected %zu", esc(fmt).c_str(), cap, w.extent(), direct.text.size()); return std::string(w.view()); });
  CHECK(small.threw == direct.threw, "small buffer", "throws differently"); if (!small.threw) eq_text(small.text, std::string_view(direct.text).substr(0, cap), "small buffer", esc(fmt));
  direct.threw ? (void)({ EV("refused formats"); }) : (void)({ EV("accepted formats"); }); obs(fmt); obs(direct.text);
}
SUB(fuzz_formats, 300000, 6000000, 0) {
  auto fmt = fuzz_fmt(rng);
  switch (rng.below(8)) {
  case 0: fuzz(rng, fmt); break;
  case 1: fuzz(rng, fmt, rng.num()); break;
  case 2: { std::string s("A z\xff"); fuzz(rng, fmt, -int(rng.below(1000)), std::string_view(s), 'c', true); break; }
  case 3: fuzz(rng, fmt, 3.75, nullptr, "text", static_cast<void *>(&rng)); break;
  case 4: { swoc::IPEndpoint ep; ep.parse(rng.flip() ? "172.17.99.1:80" : "[fe80::1:2]:443"); swoc::IPRange r{"10.1.0.0/16"}; fuzz(rng, fmt, ep, swoc::IPAddr("::1"), r); break; }
  case 5: { std::string p("ab"); u16 arr[3] = {1, 0x203, 0xffff}; fuzz(rng, fmt, swoc::MemSpan<u16>{arr, 3}, swoc::bwf::Errno(int(rng.below(140))), swoc::bwf::Pattern{int(rng.below(5)), p}, swoc::bwf::As_Hex(arr)); break; }
  case 6: { std::bitset<5> bs(rng.below(32)); std::atomic<int> at{7}; fuzz(rng, fmt, bs, at, swoc::bwf::Date(rng.below(1u << 31), "%Y"), std::chrono::seconds(5)); break; }
  default: { signed char c = -5; u8 uc = 200; fuzz(rng, fmt, c, uc, rng.num(), i64(rng.num()), -2.5f, std::string("str"), TextView("view")); break; }
  }
}
// Numbers in specifiers which exceed every integer type: parsed and clamped, with the index reported as missing.
SUB(huge_numbers, 20000, 200000, 0) {
  std::string n; switch (rng.below(4)) { case 0: n = std::to_string(rng.num()); break; case 1: n = std::to_string((1ull << 32) + rng.below(3)); break; case 2: { n = "1"; for (u64 k = rng.below(40); k; --k) n += char('0' + rng.below(10)); break; } default: n = digits((u128(rng.u()) << 64) | rng.u(), 10, false); }
  std::string fmt = "[{" + n + "}]"; HText h(fmt); auto r = render(TextView(h.view()), "first"sv, "second"sv); bool small = n == "0" || n == "1";
  if (small) eq_text(r, n == "0" ? "[first]" : "[second]", "index", fmt);
  else CHECK(r.rfind("[{BAD_ARG_INDEX:", 0) == 0 && r.size() > 16 && r.substr(r.size() - 7) == " of 2}]", "index", "%s gave %s", fmt.c_str(), r.c_str());
  // huge maximum and precision are no limit at all.
  auto v = "some text"sv; std::string f2 = "{:." + n + "," + n + "}"; HText h2(f2); bool lim = n.size() < 3; if (!lim) eq_text(render(TextView(h2.view()), v), v, "no limit", f2); obs(n);
}
// Specifier parsing is total: every 1 and 2 byte style.
SUB(style_pairs, 65536 / 8, 65536, 0) {
  char c[2]; u64 i = vh::thorough() ? S().idx : rng.below(65536); c[0] = char(i); c[1] = char(i >> 8); std::string fmt = std::string("{:") + c[0] + c[1] + "}"; fmt = tame(fmt); fuzz(rng, fmt, 42, "x"sv); 
  Spec sp; HText h(std::string("1:") + c[0] + c[1]); try { sp.parse(TextView(h.view())); CHECK(sp._idx == 1, "spec index", "%d", sp._idx); CHECK(sp.has_valid_type() || true, "x", "x"); sp.has_numeric_type(); sp.has_upper_case_type(); sp.has_pointer_type(); } catch (std::invalid_argument const &) {}
}
// Concatenation: well formed pieces never influence each other.
SUB(composition, 60000, 600000, 0) {
  u64 a = rng.num(); std::string b = "bee"; std::string fmt, want;
  for (u64 n = 1 + rng.below(6); n; --n) {
    std::string piece; if (rng.chance(1, 4)) { piece = rng.pick({"{missing}", "{77}", "{:x:}", "{{", "}}", "lit", "{gone:>12}"}); if (piece == "{:x:}") piece = "{0:x:}"; } else { auto f = gen_spec(rng, {'d', 'x', 'g', 's'}, false); piece = f.text(rng, rng.flip() ? "0" : "1"); }
    HText h(piece); want += render(TextView(h.view()), a, b); fmt += piece;
  }
  HText h(fmt); T("%s", fmt.c_str()); eq_text(render(TextView(h.view()), a, b), want, "composition", esc(fmt)); obs(fmt);
  eq_text(render("{missing}|{0}", a), "{~missing~}|" + std::to_string(a), "unknown name", "marker"); 
}
// Bound names.
struct Ctx { int v; std::string s; };
static std::string nm(Rng &rng) { static char const *N[] = {"alpha", "beta", "a", "b.c", "x-y", "Alpha", "12x", "a b", "\xe9t\xe9", "q"}; return rng.pick(N); }
SUB(names, 60000, 600000, LEAK) {
  ExternalNames ext; ContextNames<Ctx> cn; std::map<std::string, std::string> em, cm; Ctx ctx{int(rng.below(1000)), "ctx"};
  for (u64 n = 1 + rng.below(20); n; --n) {
    auto k = nm(rng); std::string tag = "<" + std::to_string(rng.below(1000)) + ">";
    switch (rng.below(5)) {
    case 0: { HText h(k); ext.assign(h.view(), [tag](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write(tag); }); em[k] = tag; EV("external assign"); break; } // the name text dies here
    case 1: { HText h(k); cn.assign(h.view(), ContextNames<Ctx>::ExternalGenerator([tag](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write(tag); })); cm[k] = tag; EV("context external assign"); break; }
    case 2: { HText h(k); cn.assign(h.view(), ContextNames<Ctx>::Generator([tag](BufferWriter &w, Spec const &, Ctx &c) -> BufferWriter & { return w.print("{}{}{}", tag, c.v, c.s); })); cm[k] = tag + std::to_string(ctx.v) + ctx.s; EV("context assign"); break; }
    default: {
      std::string fmt, we, wc; for (u64 m = 1 + rng.below(4); m; --m) { auto q = nm(rng); FSpec f; if (rng.flip()) { f.min = rng.below(14); if (rng.flip()) f.align = rng.pick<char>({'<', '>', '^'}); } fmt += "." + f.text(rng, q); 
        auto look = [&](std::map<std::string, std::string> const &m) { auto it = m.find(q); return "." + place(it == m.end() ? "{~" + q + "~}" : it->second, f); }; we += look(em); wc += look(cm); }
      HText h(fmt); char b[2000]; FixedBufferWriter w{b, sizeof b}; w.print_n(ext.bind(), TextView(h.view())); eq_text(w.view(), we, "external names", esc(fmt));
      w.clear(); w.print_n(cn.bind(ctx), TextView(h.view())); eq_text(w.view(), wc, "context names", esc(fmt));
      Format pre{TextView(h.view())}; w.clear(); w.print_nfv(cn.bind(ctx), pre.bind(), swoc::bwf::ArgTuple{std::make_tuple()}); eq_text(w.view(), wc, "precompiled names", esc(fmt));
      // names and arguments together; a name does not consume an argument.
      std::string f2 = "{}" + fmt + "{}"; HText h2(f2); w.clear(); auto args = std::make_tuple(17, 23); w.print_nfv(cn.bind(ctx), Format::bind(TextView(h2.view())), swoc::bwf::ArgTuple{args}); eq_text(w.view(), "17" + wc + "23", "names and arguments", esc(f2));
      size_t cap = rng.below(20); FixedBufferWriter tw{b, cap}; tw.print_n(cn.bind(ctx), TextView(h.view())); CHECK(tw.extent() == wc.size(), "extent", "%zu expected %zu", tw.extent(), wc.size()); eq_text(tw.view(), wc.substr(0, cap), "truncated names", esc(fmt));
      obs(we); obs(wc); }
    }
    CHECK(ext.contains(k) == (em.count(k) == 1) && cn.contains(k) == (cm.count(k) == 1), "contains", "%s", k.c_str());
  }
}
SUB(global_names, 2000, 20000, 0) { // print() resolves against the global table. Names are unique to the case.
  std::map<std::string, std::string> m; auto key = [&] { return "g" + std::to_string(S().idx) + "_" + std::to_string(rng.below(5)); };
  for (u64 n = 1 + rng.below(8); n; --n) {
    auto k = key(); std::string tag = std::to_string(rng.below(1000000));
    swoc::bwf::Global_Names.assign(k, [tag](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write(tag); }); m[k] = tag;
    auto q = key(); auto it = m.find(q); std::string fmt = "{" + q + "}", want = it == m.end() ? "{~" + q + "~}" : it->second;
    eq_text(render(TextView(fmt)), want, "global names", fmt); std::string s; swoc::bwprint(s, TextView(fmt)); eq_text(s, want, "global names", fmt); obs(want);
  }
}
// Specifiers with a malformed encoded fill, or a precision or maximum mark without a number, are refused by every form, wherever they are.
SUB(malformed_style, 40000, 400000, 0) {
  std::string st; bool bad = true; auto hexd = [&] { return "0123456789abcdefABCDEF"[rng.below(22)]; }; auto any = [&] { char c; do c = rng.flip() ? char(33 + rng.below(94)) : char(rng.u()); while (c == '{' || c == '}' || c == ':'); return c; };
  auto prefix = [&] { std::string s; if (rng.flip()) { if (rng.chance(1, 3)) { s += '%'; s += hexd(); s += hexd(); } else if (rng.flip()) s += '*'; s += rng.pick<char>({'<', '>', '^', '='}); } if (rng.chance(1, 3)) s += rng.pick<char>({'+', '-', ' '}); if (rng.chance(1, 3)) s += '#'; if (rng.flip()) s += std::to_string(rng.below(50)); return s; };
  switch (rng.below(6)) {
  case 0: { st = "%"; for (u64 n = rng.below(3); n; --n) st += hexd(); break; } // too short
  case 1: { st = "%"; st += hexd(); st += hexd(); char c; do c = any(); while (c == '<' || c == '>' || c == '^' || c == '='); st += c; st += prefix(); break; } // no alignment
  case 2: { st = "%"; char a = any(), b = any(); bad = !(isxdigit(u8(a)) && isxdigit(u8(b))); st += a; st += b; st += rng.pick<char>({'<', '>', '^', '='}); if (rng.flip()) st += std::to_string(rng.below(30)); break; }
  case 3: case 4: { st = prefix(); st += rng.flip() ? '.' : ','; if (rng.flip()) { char c; do c = any(); while (isdigit(u8(c))); st += c; } if (st[0] == '%' && st.size() < 4) break; if (st.size() > 1 && (st[1] == '<' || st[1] == '>' || st[1] == '^' || st[1] == '=') && (st[0] == '.' || st[0] == ',')) bad = false; break; }
  default: { st = prefix() + "." + std::to_string(rng.below(20)); if (rng.flip()) st += rng.pick<char>({'x', 'd', 's'}); st += ','; if (rng.flip()) { char c; do c = any(); while (isdigit(u8(c))); st += c; } } }
  std::string fmt = rng.pick({"", "literal ", "{{", "{} "}) + ("{" + rng.pick<std::string>({"", "0", "1", "7", "name"}) + ":" + st + rng.pick({"", ":", ":ext"}) + "}") + rng.pick({"", " tail", "}}", "{}"}); HText h(fmt); TextView v{h.view()}; int k = int(rng.u()); bool threw[4] = {};
  T("%s", esc(fmt).c_str()); try { char b[400]; FixedBufferWriter w{b, sizeof b}; w.print(v, k, "text"); } catch (std::invalid_argument const &) { threw[0] = true; } try { Format f{v}; (void)f; } catch (std::invalid_argument const &) { threw[1] = true; } try { std::string s; swoc::bwprint(s, v, k, "text"); } catch (std::invalid_argument const &) { threw[2] = true; } { Spec sp; HText hs(":" + st); try { sp.parse(TextView(hs.view())); } catch (std::invalid_argument const &) { threw[3] = true; } }
  for (int i = 0; i < 4; ++i) CHECK(threw[i] == bad, "malformed style", "%s: form %d %s", esc(fmt).c_str(), i, threw[i] ? "throws" : "accepted"); obs(fmt); if (bad) EV("malformed styles refused"); else EV("similar well formed styles");
}
// Caller supplied extractors: the output is exactly the literals, specifiers and captured values which they deliver.
struct PItem { std::string lit; bool spec = false; Spec sp; std::string name, ext; };
struct PlanEx {
  std::vector<PItem> const *items; size_t i = 0; bool pending = false; int kind = 0; long value = 0; unsigned captures = 0;
  explicit operator bool() const { return i < items->size(); }
  bool operator()(std::string_view &lit, Spec &spec) {
    auto const &x = (*items)[i++]; lit = x.lit; if (!x.spec) return false;
    spec = x.sp; spec._name = x.name; spec._ext = x.ext;
    if (pending && spec._type != Spec::CAPTURE_TYPE) { spec._min = unsigned(value); pending = false; }
    return true;
  }
  void capture(BufferWriter &w, Spec const &spec, std::any const &v) {
    ++captures;
    if (auto p = std::any_cast<int *>(&v)) value = **p, kind = 1; else if (auto q = std::any_cast<unsigned *>(&v)) value = long(**q), kind = 2; else if (auto r = std::any_cast<std::string_view const *>(&v)) value = long((*r)->size()), kind = 3; else kind = -1;
    pending = true; if (spec._ext == "loud") w.print("<{}>", value);
  }
};
struct NoCapEx { // as above, but without support for captures.
  PlanEx p; explicit operator bool() const { return bool(p); }
  bool operator()(std::string_view &lit, Spec &spec) { return p(lit, spec); }
};
SUB(extractors, 30000, 300000, LEAK) {
  int ai = int(rng.below(30)); unsigned au = unsigned(rng.below(30)); std::string store = "quick brown"; std::string_view const as = std::string_view(store).substr(0, rng.below(12));
  ExternalNames ext; ext.assign("alpha", [](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write("AL"sv); });
  std::vector<PItem> plan; std::string want; int next = 0; long pend = -1; bool cap_used = false, name_used = false; unsigned caps = 0;
  auto value = [&](int idx) { return idx == 0 ? std::to_string(ai) : idx == 1 ? std::to_string(au) : idx == 2 ? std::string(as) : "{BAD_ARG_INDEX:" + std::to_string(idx) + " of 3}"; };
  for (u64 n = rng.below(9); n; --n) {
    PItem x; for (u64 k = rng.below(4) * rng.below(3); k; --k) x.lit += rng.pick<char>({'a', '{', '}', '%', ' ', char(0), char(0xfe)}); want += x.lit;
    switch (rng.below(5)) {
    case 0: break; // literal only
    case 1: { // capture
      x.spec = true; x.sp._type = Spec::CAPTURE_TYPE; int idx; if (rng.flip()) { x.sp._idx = idx = int(rng.below(3)); x.name = "n"; } else idx = next++;
      if (rng.chance(1, 4)) x.ext = "loud";
      if (idx < 3) { pend = idx == 0 ? ai : idx == 1 ? long(au) : long(as.size()); FSpec f; std::string o = x.ext == "loud" ? "<" + std::to_string(pend) + ">" : ""; if (rng.flip()) { f.min = rng.below(9); x.sp._min = unsigned(f.min); if (rng.flip()) { f.align = '>'; x.sp._align = Spec::Align::RIGHT; } } if (rng.flip()) { f.max = i64(f.min + rng.below(6)); x.sp._max = unsigned(f.max); } want += place(clip(o, f), f); cap_used = true; ++caps; } else want += value(idx);
      break; }
    case 2: { // name
      x.spec = true; x.name = rng.flip() ? "alpha" : "omega"; std::string s = x.name == "alpha" ? "AL" : "{~omega~}"; FSpec f; f.min = pend >= 0 ? u64(pend) : 0; pend = -1; want += place(s, f); name_used = true; break; }
    default: {
      x.spec = true; int idx; if (rng.flip()) { x.sp._idx = idx = int(rng.below(4)); x.name = "n"; } else idx = next++; FSpec f; f.min = rng.below(20); x.sp._min = unsigned(f.min); if (pend >= 0) f.min = u64(pend); pend = -1;
      if (rng.flip()) { f.align = '>'; x.sp._align = Spec::Align::RIGHT; } if (rng.chance(1, 3)) x.sp._fill = f.fill = '*';
      want += place(value(idx), f); break; }
    }
    plan.push_back(x);
  }
  T("%zu items -> %s", plan.size(), esc(want).c_str()); obs(want);
  std::vector<char> b(rng.flip() ? want.size() + 200 : rng.below(want.size() + 2));
  auto args = std::forward_as_tuple(ai, au, as);
  { FixedBufferWriter w{b.data(), b.size()}; PlanEx ex{&plan}; w.print_nfv(ext.bind(), ex, swoc::bwf::ArgTuple{args});
    CHECK(w.extent() == want.size(), "extractor extent", "%zu expected %zu", w.extent(), want.size()); eq_text(w.view(), std::string_view(want).substr(0, b.size()), "extractor output", "plan"); CHECK(ex.captures == caps, "captures", "%u expected %u", ex.captures, caps); EV("extractor prints"); if (caps) EV("captures"); }
  { std::vector<char> big(want.size() + 200); FixedBufferWriter w{big.data(), big.size()}; bool threw = false; try { w.print_nfv(ext.bind(), NoCapEx{{&plan}}, swoc::bwf::ArgTuple{args}); } catch (std::runtime_error const &) { threw = true; EV("capture refused"); }
    CHECK(threw == cap_used, "capture unsupported", "an extractor without capture support %s", threw ? "threw" : "was used for a capture"); if (!threw) eq_text(w.view(), want, "extractor output", "no capture"); }
  { std::vector<char> big(want.size() + 200); FixedBufferWriter w{big.data(), big.size()}; bool threw = false; try { w.print_nfv(swoc::bwf::NilBinding(), PlanEx{&plan}, swoc::bwf::ArgTuple{args}); } catch (std::runtime_error const &) { threw = true; EV("nil binding refused"); }
    CHECK(threw == name_used, "nil binding", "names %s", threw ? "refused without use" : "accepted"); if (!threw) eq_text(w.view(), want, "extractor output", "nil binding"); }
}
// Precompiled formats as containers of pieces: literals and specifiers in order, is_literal, and forms without arguments.
SUB(pieces, 20000, 200000, LEAK) {
  std::string fmt, lit; std::vector<std::pair<bool, std::string>> exp; bool all = true;
  for (u64 n = rng.below(7); n; --n) {
    if (rng.chance(3, 5)) { std::string raw, f; for (u64 k = 1 + rng.below(5); k; --k) { char c = rng.pick<char>({'a', 'b', '{', '}', ':', ' '}); raw += c; f += c; if (c == '{' || c == '}') f += c; } fmt += f; lit += raw; }
    else { std::string name = rng.pick({"0", "1", "alpha", "x-y"}), e = rng.pick({"", "e", "::"}); if (!lit.empty()) exp.emplace_back(true, lit); lit.clear(); exp.emplace_back(false, name + "|" + e); fmt += "{" + name + (e.empty() ? "" : "::" + e) + "}"; all = false; }
  }
  if (!lit.empty()) exp.emplace_back(true, lit);
  HText h(fmt); Format f{TextView(h.view())}; T("%s", fmt.c_str()); obs(fmt);
  // adjacent literal pieces may be stored separately.
  std::vector<std::pair<bool, std::string>> got; Format const &cf = f;
  for (auto const &sp : cf) { bool l = sp._type == Spec::LITERAL_TYPE; if (l && !got.empty() && got.back().first) got.back().second += sp._ext; else got.emplace_back(l, l ? std::string(sp._ext) : std::string(sp._name) + "|" + std::string(sp._ext)); if (!l) CHECK(sp._idx == (sp._name == "0" ? 0 : sp._name == "1" ? 1 : -1), "pieces", "index %d of %s", sp._idx, esc(sp._name).c_str()); }
  CHECK(got == exp, "pieces", "%s gave %zu pieces, expected %zu", esc(fmt).c_str(), got.size(), exp.size()); CHECK(f.is_literal() == all, "is literal", "%s", esc(fmt).c_str()); CHECK(size_t(f.end() - f.begin()) == size_t(cf.end() - cf.begin()), "pieces", "iteration");
  ExternalNames ext; ext.assign("alpha", [](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write("AL"sv); });
  std::string want; for (auto &p : exp) { if (p.first) want += p.second; else { auto name = p.second.substr(0, p.second.find('|')); want += name == "alpha" ? "AL" : name == "x-y" ? "{~x-y~}" : "{BAD_ARG_INDEX:" + name + " of 0}"; } }
  char b[400]; { FixedBufferWriter w{b, sizeof b}; w.print_n(ext.bind(), TextView(h.view())); eq_text(w.view(), want, "no arguments", esc(fmt)); }
  { FixedBufferWriter w{b, sizeof b}; swoc::BufferWriter &bw = w; bw.print_nfv(ext.bind(), f.bind()); eq_text(w.view(), want, "no arguments", esc(fmt)); }
  { FixedBufferWriter w{b, sizeof b}; std::string w2; for (auto &p : exp) { if (p.first) w2 += p.second; else { auto name = p.second.substr(0, p.second.find('|')); w2 += name == "0" ? "7" : name == "1" ? "x" : "{~" + name + "~}"; } } auto t = std::make_tuple(7, 'x'); w.print_v(f, t); eq_text(w.view(), w2, "print_v", esc(fmt)); w.clear(); w.print_v(TextView(h.view()), t); eq_text(w.view(), w2, "print_v", esc(fmt)); EV("piecewise formats"); }
}

// Packs of any number of arguments, and formats of any number of specifiers: implicit indices continue, explicit ones reach, past every small integer.
struct NumPack : swoc::bwf::ArgPack {
  unsigned n, mul; NumPack(unsigned n, unsigned mul) : n(n), mul(mul) {} unsigned at(unsigned i) const { return i * mul + 3; }
  std::any capture(unsigned idx) const override { return at(idx); } BufferWriter &print(BufferWriter &w, Spec const &spec, unsigned idx) const override { return bwformat(w, spec, at(idx)); } unsigned count() const override { return n; }
};
SUB(many_args, 120, 4000, LEAK) {
  static int const bits[] = {0, 1, 5, 6, 7, 8, 12, 15, 16}; unsigned n = (1u << rng.pick(bits)) + unsigned(rng.below(5)) - 1; NumPack pack(n, 1 + unsigned(rng.below(1000))); unsigned lim = n < 3000 || rng.chance(1, 12) ? n + unsigned(rng.below(5)) : 200; if (rng.flip()) lim = std::min(lim, 300u);
  std::string fmt, want; unsigned imp = 0; auto val = [&](unsigned i) { want += i < n ? std::to_string(pack.at(i)) : "{BAD_ARG_INDEX:" + std::to_string(i) + " of " + std::to_string(n) + "}"; };
  for (unsigned k = 0; k < lim; ++k) { if (rng.chance(3, 4)) { fmt += "{}"; val(imp++); } else { unsigned i = rng.chance(1, 8) ? (1u << rng.below(30)) + unsigned(rng.below(4)) - 1 : unsigned(rng.below(n + 3)); fmt += "{" + std::to_string(i) + "}"; val(i); } fmt += ' '; want += ' '; }
  T("%u specifiers for %u arguments", lim, n); HText h(fmt); std::vector<char> b(want.size() + 60);
  auto same = [&](FixedBufferWriter &w, char const *how) { auto v = w.view(); size_t i = 0; while (i < v.size() && i < want.size() && v[i] == want[i]) ++i; CHECK(v == want, "many arguments", "%s: at %zu got %s expected %s", how, i, esc(v.substr(i, 40)).c_str(), esc(std::string_view(want).substr(i, 40)).c_str()); EV("large argument packs"); };
  { FixedBufferWriter w{b.data(), b.size()}; w.print_nfv(swoc::bwf::NilBinding(), Format::bind(TextView(h.view())), pack); same(w, "text"); }
  { Format f{TextView(h.view())}; FixedBufferWriter w{b.data(), b.size()}; w.print_nfv(swoc::bwf::NilBinding(), f.bind(), pack); same(w, "precompiled"); } obs(want);
}

// Scale: tables of thousands of names with long texts, bound anew, and formats of thousands of items.
SUB(large, 60, 1500, LEAK) {
  ExternalNames ext; ContextNames<int> cn; std::map<std::string, std::string> em, cm; int ctx = int(rng.below(1000)); unsigned space = 1 + unsigned(rng.below(3000)); auto key = [&] { unsigned k = unsigned(rng.below(space)); std::string s = "n" + std::to_string(k); if (k % 17 == 3) s += std::string(k % 701 + 1, char('a' + k % 26)); if (k % 501 == 7) s += std::string(5000, 'L'); return s; };
  for (u64 n = rng.below(4000); n; --n) { auto k = key(); HText h(k); std::string tag = std::to_string(rng.below(100000)); if (rng.flip()) { ext.assign(h.view(), [tag](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write(tag); }); em[k] = tag; } else { cn.assign(h.view(), ContextNames<int>::Generator([tag](BufferWriter &w, Spec const &, int &c) -> BufferWriter & { return w.print("{}+{}", tag, c); })); cm[k] = tag + "+" + std::to_string(ctx); } }
  std::string fmt, we, wc; for (u64 n = 1 + rng.below(1500); n; --n) { auto q = key(); std::string lit(rng.below(9), '-'); fmt += lit + "{" + q + "}"; auto look = [&](std::map<std::string, std::string> const &m) { auto it = m.find(q); return lit + (it == m.end() ? "{~" + q + "~}" : it->second); }; we += look(em); wc += look(cm); }
  HText h(fmt); T("%zu and %zu names, format of %zu", em.size(), cm.size(), fmt.size()); std::vector<char> buf(std::max(we.size(), wc.size()) + 1); FixedBufferWriter w{buf.data(), buf.size()};
  w.print_n(ext.bind(), TextView(h.view())); CHECK(w.view() == we, "many names", "external: %zu bytes expected %zu", w.extent(), we.size()); w.clear(); w.print_n(cn.bind(ctx), TextView(h.view())); CHECK(w.view() == wc, "many names", "context: %zu bytes expected %zu", w.extent(), wc.size());
  Format pre{TextView(h.view())}; w.clear(); w.print_nfv(cn.bind(ctx), pre.bind(), swoc::bwf::ArgTuple{std::make_tuple()}); CHECK(w.view() == wc, "many names", "precompiled: %zu bytes expected %zu", w.extent(), wc.size());
  for (auto &[k, v] : em) { CHECK(ext.contains(k), "contains", "%s", esc(k, 40).c_str()); } for (auto &[k, v] : cm) CHECK(cn.contains(k), "contains", "%s", esc(k, 40).c_str()); for (int i = 0; i < 20; ++i) { auto q = key(); CHECK(ext.contains(q) == (em.count(q) == 1) && cn.contains(q) == (cm.count(q) == 1), "contains", "%s", esc(q, 40).c_str()); } obs(wc); EV("large name tables");
}
