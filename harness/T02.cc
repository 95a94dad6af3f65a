#include "vh.h"
#include "swoc/TextView.h"
#include <sstream>
#include <sys/mman.h>
using swoc::TextView; using swoc::CharSet; using std::string_view; using std::string;
// T02: trims, searches, character sets, prefix tests, iteration, construction, transformed views, stream output.
static size_t g_mul = 1; // scales text lengths: large runs.
static string gen(vh::Rng &rng, size_t mx) {
  static char const A[] = {'a', 'A', ' ', '\t', '\0', char(0xff), '\n', 'z', 'Z', '[', '{', '@', '`'}; unsigned k = unsigned(rng.in(1, 13)), off = unsigned(rng.below(13)); string s(g_mul > 1 ? rng.below(mx * g_mul) : rng.size(mx), 0);
  for (auto &c : s) c = rng.chance(1, 12) ? char(rng.u()) : A[(rng.below(k) + off) % 13]; return s;
}
static char lo(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static void do_trim(vh::Rng &rng) {
  string text = gen(rng, rng.chance(1, 20) ? 400 : 14), set = gen(rng, 6); vh::HText ht(text), hs(set); string_view src = ht; size_t L = src.size(); char c = L && rng.chance(3, 4) ? text[rng.flip() ? 0 : L - 1] : char(rng.u()); CharSet cs{TextView(hs.view())}; vh::T("text %s set %s c %d", vh::esc(text).c_str(), vh::esc(set).c_str(), c);
  string zset = set.substr(0, set.find('\0')); vh::HText hz(zset + string(1, '\0'));
  bool in[256] = {}; for (unsigned char x : set) in[x] = true;
  for (int x = 0; x < 256; ++x) { CHECK(cs(char(x)) == in[x], "CharSet", "CharSet(%s) of char %d = %d", vh::esc(set).c_str(), x, cs(char(x))); CHECK(cs(static_cast<unsigned char>(x)) == in[x], "CharSet", "CharSet(%s) of unsigned char %d wrong", vh::esc(set).c_str(), x); }
  auto chk = [&](char const *op, TextView got, bool l, bool r, auto &&p) { EV("trim"); size_t a = 0, b = L; if (l) while (a < b && p(src[a])) ++a; if (r) while (b > a && p(src[b - 1])) --b;
    CHECK(got.size() == b - a && (a == b || got.data() == src.data() + a), op, "%s of %s set=%s c=%d: got %s expected %s", op, vh::esc(text).c_str(), vh::esc(set).c_str(), c, vh::esc(got).c_str(), vh::esc(src.substr(a, b - a)).c_str()); if (got.data()) CHECK(got.data() >= src.data() && got.data_end() <= src.data() + L, op, "%s leaves the source", op); vh::obs(a * 512 + b); };
  auto pc = [&](char x) { return x == c; }; auto ps = [&](char x) { return in[static_cast<unsigned char>(x)]; }; auto pz = [&](char x) { return zset.find(x) != string::npos; };
  TextView tv; string_view sv = hs.view();
#define OP(NAME, L, R) \
  tv = src; chk(#NAME "(char)", tv.NAME(c), L, R, pc); tv = src; chk(#NAME "(CharSet)", tv.NAME(cs), L, R, ps); tv = src; chk(#NAME "(view)", tv.NAME(sv), L, R, ps); tv = src; chk(#NAME "_if", tv.NAME##_if(ps), L, R, ps); tv = src; chk(#NAME "_if", tv.NAME##_if(pc), L, R, pc);
  OP(ltrim, true, false) OP(rtrim, false, true) OP(trim, true, true)
  tv = src; chk("ltrim(cstr)", tv.ltrim(static_cast<char const *>(hz.data())), true, false, pz); tv = src; chk("trim(cstr)", tv.trim(static_cast<char const *>(hz.data())), true, true, pz);
}
static void do_search(vh::Rng &rng) {
  string text = gen(rng, 20); vh::HText ht(text); TextView tv{ht.view()}; size_t L = text.size(); char c = L ? text[rng.below(L)] : 'x'; bool inv = rng.flip(); auto p = [&](char x) { return (x == c) != inv; };
  size_t f = TextView::npos, l = f; for (size_t i = 0; i < L; ++i) if (p(text[i])) { l = i; if (f == TextView::npos) f = i; }
  CHECK(tv.find_if(p) == f, "find_if", "find_if on %s got %zu expected %zu", vh::esc(text).c_str(), tv.find_if(p), f); CHECK(tv.rfind_if(p) == l, "rfind_if", "rfind_if on %s got %zu expected %zu", vh::esc(text).c_str(), tv.rfind_if(p), l); vh::obs(f); vh::obs(l);
  // prefix/suffix tests against a mutated piece of the text.
  size_t n = rng.below(L + 2); bool front = rng.flip(); string piece = front ? text.substr(0, n) : text.substr(L - std::min(n, L)); if (n > L) piece += c;
  for (auto &x : piece) { if (rng.chance(1, 4)) x = (x >= 'a' && x <= 'z') ? char(x - 32) : lo(x); else if (rng.chance(1, 30)) x = char(x ^ (rng.flip() ? 0x20 : 0x80)); else if (rng.chance(1, 60)) x = char(rng.u()); }
  vh::HText hp(piece), hpz(piece + string(1, '\0')); string_view pv = hp; string zp = piece.substr(0, piece.find('\0')); char const *pz = hpz.data(); vh::T("text %s piece %s", vh::esc(text).c_str(), vh::esc(piece).c_str());
  auto test = [&](string const &q, bool fr, bool nc) { if (q.size() > L) return false; for (size_t i = 0; i < q.size(); ++i) { char a = text[fr ? i : L - q.size() + i], b = q[i]; if (nc ? lo(a) != lo(b) : a != b) return false; } return true; };
#define Q(EXPR, WANT) do { bool g_ = EXPR, w_ = WANT; EV("affix test"); vh::obs(g_); CHECK(g_ == w_, #EXPR, "%s = %d expected %d for text %s piece %s", #EXPR, g_, w_, vh::esc(text).c_str(), vh::esc(piece).c_str()); } while (0)
  Q(tv.starts_with(pv), test(piece, true, false)); Q(tv.starts_with_nocase(pv), test(piece, true, true)); Q(tv.ends_with(pv), test(piece, false, false)); Q(tv.ends_with_nocase(pv), test(piece, false, true));
  Q(tv.starts_with(pz), test(zp, true, false)); Q(tv.starts_with_nocase(pz), test(zp, true, true)); Q(tv.ends_with(pz), test(zp, false, false)); Q(tv.ends_with_nocase(pz), test(zp, false, true));
  char x = piece.empty() ? 'q' : piece[rng.below(piece.size())]; string xs(1, x);
  Q(tv.starts_with(x), test(xs, true, false)); Q(tv.starts_with_nocase(x), test(xs, true, true)); Q(tv.ends_with(x), test(xs, false, false)); Q(tv.ends_with_nocase(x), test(xs, false, true));
}
static void do_iterate(vh::Rng &rng) {
  string text = gen(rng, 12); vh::HText ht(text); TextView tv{ht.view()}; size_t L = text.size(), extra = rng.below(4);
  for (size_t i = 0; i < L + extra; ++i) {
    CHECK(tv.size() == (i < L ? L - i : 0), "increment", "size %zu after %zu increments of %zu", tv.size(), i, L); CHECK(bool(tv) == (i < L) && !tv == (i >= L) && tv.empty() == (i >= L), "bool", "emptiness wrong");
    CHECK(*tv == (i < L ? text[i] : '\0'), "deref", "dereference wrong at %zu", i); CHECK(tv.data_end() == tv.data() + tv.size(), "data_end", "data_end wrong");
    if (rng.flip()) { auto &r = ++tv; CHECK(&r == &tv, "increment", "result"); } else { auto old = tv; auto r = tv++; CHECK(r.data() == old.data() && r.size() == old.size(), "increment", "post increment result wrong"); }
    vh::obs(tv.size()); EV("step");
  }
  tv = ht.view(); size_t p = rng.below(L + 3), n = rng.chance(1, 4) ? TextView::npos : rng.below(L + 3); auto s = tv.substr(p, n); string w = p >= L ? "" : text.substr(p, n); vh::eq_text(s, w, "substr", "substr(" + std::to_string(p) + ")"); if (s.size()) CHECK(s.data() == tv.data() + p, "substr", "wrong place");
  tv.clear(); CHECK(tv.empty() && tv.size() == 0, "clear", "not empty after clear");
}
SUB(construct, 20000, 500000, 0) {
  string text = gen(rng, 20); string z = text.substr(0, text.find('\0')); vh::HText ht(text), hz(z + string(1, '\0')); char *mp = hz.data(); char const *cp = hz.data();
#define SAME(V, T, P) do { TextView v_ = V; vh::eq_text(v_, T, "construct", #V); if (v_.size()) CHECK(static_cast<void const *>(v_.data()) == static_cast<void const *>(P), "construct", "%s not at the source", #V); vh::obs(v_.size()); EV("construct"); } while (0)
  SAME(TextView(mp), z, mp); SAME(TextView(cp), z, cp); SAME(TextView(cp, -1), z, cp); SAME(TextView(cp, ssize_t(-1)), z, cp); SAME(TextView(cp, TextView::npos), z, cp); SAME(TextView(ht.data(), text.size()), text, ht.data()); SAME(TextView(ht.data(), int(text.size())), text, ht.data()); SAME(TextView(ht.data(), unsigned(text.size())), text, ht.data());
  SAME(TextView(ht.data(), ht.data() + ht.size()), text, ht.data()); SAME(TextView(text), text, text.data()); SAME(TextView(ht.view()), text, ht.data()); SAME(TextView(nullptr), "", nullptr); char const *np = nullptr; SAME(TextView(np), "", nullptr); SAME(TextView(np, -1), "", nullptr);
  std::vector<char> vec(text.begin(), text.end()); SAME(TextView(vec), text, vec.data());
  TextView v; v = text; SAME(v, text, text.data()); v = ht.view(); SAME(v, text, ht.data()); v = cp; SAME(v, z, cp); v = mp; SAME(v, z, mp); v.assign(cp); SAME(v, z, cp); v.assign(mp); SAME(v, z, mp); v.assign(text); SAME(v, text, text.data()); v.assign(ht.data(), ht.size()); SAME(v, text, ht.data()); v.assign(ht.data(), ht.data() + ht.size()); SAME(v, text, ht.data()); v.assign(cp, TextView::npos); SAME(v, z, cp); v.assign(np, TextView::npos); SAME(v, "", nullptr); v.assign(vec); SAME(v, text, vec.data());
  static char const lit[] = "lit\0eral"; SAME(TextView(lit), string_view("lit\0eral", 8), lit); v = lit; SAME(v, string_view("lit\0eral", 8), lit); v.assign(lit); SAME(v, string_view("lit\0eral", 8), lit); static char const raw[4] = {'a', 'b', 'c', 'd'}; SAME(TextView(raw), "abcd", raw); v = raw; SAME(v, "abcd", raw); v.assign(raw); SAME(v, "abcd", raw); SAME(TextView(""), "", nullptr);
  CHECK(std::hash<TextView>{}(TextView(ht.view())) == std::hash<TextView>{}(TextView(text)), "hash", "equal views hash differently");
  using namespace swoc::literals; SAME("a\0b"_tv, string_view("a\0b", 3), v_.data()); SAME("a\0b"_sv, string_view("a\0b", 3), v_.data());
}
static void do_transform(vh::Rng &rng) {
  string text = gen(rng, 20); vh::HText ht(text); TextView tv{ht.view()}; auto xf = [](char c) -> int { return int(static_cast<unsigned char>(c)) * 3 + 1; };
  { auto t = swoc::transform_view_of(xf, tv); size_t i = 0; auto copy = t; for (; t; ) { CHECK(!t.empty() && i < text.size(), "transform", "too long"); CHECK(*t == xf(text[i]), "transform", "element %zu wrong", i); vh::obs(u_int64_t(*t)); if (rng.flip()) ++t; else { auto o = t++; CHECK(*o == xf(text[i]), "transform", "post increment"); } ++i; EV("transformed char"); } CHECK(i == text.size() && t.empty(), "transform", "length %zu expected %zu", i, text.size()); CHECK((copy == t) == text.empty() && (copy != t) == !text.empty(), "transform", "comparison"); i = 0; for (auto c : copy) { CHECK(c == xf(text[i]), "transform", "range for element %zu", i); ++i; } CHECK(i == text.size(), "transform", "range for length"); }
  { auto t = swoc::transform_view_of(tv); size_t i = 0; auto copy = t; for (; t; ) { CHECK(i < text.size() && *t == text[i], "identity", "element %zu wrong", i); if (rng.flip()) ++t; else { auto o = t++; CHECK(*o == text[i], "identity", "post increment"); } ++i; } CHECK(i == text.size() && t.empty(), "identity", "length"); i = 0; for (auto c : copy) { CHECK(c == text[i], "identity", "range for element %zu", i); ++i; } CHECK(i == text.size(), "identity", "range for length"); CHECK((copy == t) == text.empty(), "identity", "comparison"); }
  if (!text.empty()) { // equal only if both the place and the end are the same
    size_t a = rng.below(text.size() + 1), b = rng.below(text.size() + 1), c = rng.flip() ? a : rng.below(text.size() + 1), e = rng.flip() ? b : rng.below(text.size() + 1); if (a > b) std::swap(a, b); if (c > e) std::swap(c, e); bool same = a == c && b == e;
    TextView p{tv.data() + a, b - a}, q{tv.data() + c, e - c}; auto x = swoc::transform_view_of(p), y = swoc::transform_view_of(q); CHECK((x == y) == same && (x != y) == !same, "identity-eq", "[%zu,%zu) and [%zu,%zu)", a, b, c, e); int (*fold)(int) = &tolower; auto u = swoc::transform_view_of(fold, p), v = swoc::transform_view_of(fold, q); CHECK((u == v) == same && (u != v) == !same, "transform-eq", "[%zu,%zu) and [%zu,%zu)", a, b, c, e);
  }
  { auto lower = swoc::transform_view_of(&tolower, tv); string out; for (auto c : lower) out += char(c); string w; for (char c : text) w += char(tolower(c)); vh::eq_text(out, w, "transform", "tolower"); }
  { auto inner = swoc::transform_view_of([](char c) { return char(c ^ 1); }, string_view(tv)); string out; for (auto c : inner) out += c; string w; for (char c : text) w += char(c ^ 1); vh::eq_text(out, w, "transform", "string_view source"); }
}
static void do_stream(vh::Rng &rng) {
  string text = gen(rng, 20); vh::HText ht(text); TextView tv{ht.view()}; std::ostringstream a, b; int w = int(rng.below(40)); char fill = rng.pick({' ', '*', '0'}); int adj = int(rng.below(4));
  for (auto o : {&a, &b}) { o->fill(fill); o->width(w); if (adj == 0) o->setf(std::ios::left, std::ios::adjustfield); if (adj == 1) o->setf(std::ios::right, std::ios::adjustfield); if (adj == 2) o->setf(std::ios::internal, std::ios::adjustfield); }
  a << tv << '|' << tv; b << ht.view() << '|' << ht.view(); vh::T("%s width %d adj %d", vh::esc(text).c_str(), w, adj); vh::eq_text(a.str(), b.str(), "stream", "operator<< width " + std::to_string(w) + " adj " + std::to_string(adj)); vh::obs(a.str()); EV("stream write");
}
SUB(trim, 60000, 2000000, 0) { do_trim(rng); }
SUB(search, 60000, 2000000, 0) { do_search(rng); }
SUB(iterate, 30000, 1000000, 0) { do_iterate(rng); }
SUB(transform, 30000, 1000000, 0) { do_transform(rng); }
SUB(stream, 20000, 500000, 0) { do_stream(rng); }
// Scale: kilobytes of text.
SUB(long_text, 2500, 80000, 0) { g_mul = size_t(1) << rng.in(3, 11); switch (rng.below(6)) { case 0: case 1: do_trim(rng); break; case 2: case 3: do_search(rng); break; case 4: if (g_mul > 64) g_mul = 64; do_iterate(rng); break; default: if (rng.flip()) do_transform(rng); else do_stream(rng); } g_mul = 1; EV("long texts"); }
// Texts past 2^31 and 2^32 characters: untouched zero pages with runs written at the two ends, so every scan is short.
SUB(huge_text, 6000, 300000, 0) {
  constexpr size_t RES = (size_t(9) << 30) + 65536, M = 48;
  static char *const base = [] { void *q = mmap(nullptr, RES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return q == MAP_FAILED ? nullptr : static_cast<char *>(q); }(); if (!base) return;
  size_t L = (size_t(1) << rng.in(31, 33)) + (rng.flip() ? rng.below(4096) : 0) - (rng.flip() ? rng.below(300) : 0); char A[] = {'a', 'B', ' ', char(0xff), 'z', '['}; unsigned k = unsigned(rng.in(1, 6)), o = unsigned(rng.below(6)); auto ch = [&] { return A[(rng.below(k) + o) % 6]; };
  size_t nl = rng.below(M), nr = rng.below(M); string head, tail; for (size_t i = 0; i < nl; ++i) head += ch(); for (size_t i = 0; i < nr; ++i) tail += ch();
  memcpy(base, head.data(), nl); memcpy(base + L - nr, tail.data(), nr); struct Clean { char *b; size_t L; ~Clean() { memset(b, 0, M); memset(b + L - M, 0, M); } } clean{base, L};
  string set; for (size_t i = 0, n = rng.below(4); i < n; ++i) set += ch(); char c = ch(); string_view sv = set; CharSet cs{TextView(sv)}; auto ps = [&](char x) { return set.find(x) != string::npos; }; auto pc = [&](char x) { return x == c; };
  string ctx = "head " + vh::esc(head) + " tail " + vh::esc(tail) + " of " + std::to_string(L) + " set " + vh::esc(set) + " c " + vh::esc(string(1, c)); vh::T("%s", ctx.c_str()); TextView v{base, L}, tv;
  auto chk = [&](char const *op, TextView got, bool l, bool r, auto &&p) { size_t a = 0, b = nr; if (l) while (a < nl && p(head[a])) ++a; if (r) while (b > 0 && p(tail[b - 1])) --b; size_t n = L - a - (r ? nr - b : 0); CHECK(got.data() == base + a && got.size() == n, op, "%s: %td, %zu characters expected %zu, %zu (%s)", op, got.data() - base, got.size(), a, n, ctx.c_str()); vh::obs(n); EV("trim of a huge text"); };
#define OP(NAME, L_, R_) tv = v; chk(#NAME "(char)", tv.NAME(c), L_, R_, pc); tv = v; chk(#NAME "(CharSet)", tv.NAME(cs), L_, R_, ps); tv = v; chk(#NAME "(view)", tv.NAME(sv), L_, R_, ps); tv = v; chk(#NAME "_if", tv.NAME##_if(pc), L_, R_, pc);
  OP(ltrim, true, false) OP(rtrim, false, true) OP(trim, true, true)
#undef OP
  { auto p = [&](char x) { return x != 0 && x == c; }; size_t l = tail.rfind(c), f = head.find(c); if (l != string::npos) CHECK(v.rfind_if(p) == L - nr + l, "rfind_if", "%zu expected %zu (%s)", v.rfind_if(p), L - nr + l, ctx.c_str()); if (f != string::npos) CHECK(v.find_if(p) == f, "find_if", "%zu expected %zu (%s)", v.find_if(p), f, ctx.c_str());
    if (auto z = [](char x) { return x == 0; }; true) { CHECK(v.rfind_if(z) == L - nr - 1, "rfind_if", "%zu expected %zu (%s)", v.rfind_if(z), L - nr - 1, ctx.c_str()); CHECK(v.find_if(z) == nl, "find_if", "%zu expected %zu (%s)", v.find_if(z), nl, ctx.c_str()); } }
  for (bool fr : {true, false}) {
    string const &end = fr ? head : tail; size_t n = rng.below(end.size() + 1); string q = fr ? end.substr(0, n) : end.substr(end.size() - n); for (auto &x : q) if (rng.chance(1, 6)) x = rng.chance(1, 4) ? ch() : lo(x) != x ? lo(x) : x >= 'a' && x <= 'z' ? char(x - 32) : x;
    bool eq = true, ne = true; for (size_t i = 0; i < n; ++i) { char a = end[fr ? i : end.size() - n + i]; eq = eq && a == q[i]; ne = ne && lo(a) == lo(q[i]); } string_view qv = q;
    bool g = fr ? v.starts_with(qv) : v.ends_with(qv), gn = fr ? v.starts_with_nocase(qv) : v.ends_with_nocase(qv); CHECK(g == eq && gn == ne, "affix", "%s %s: %d %d expected %d %d (%s)", fr ? "prefix" : "suffix", vh::esc(q).c_str(), g, gn, eq, ne, ctx.c_str()); vh::obs(vh::u64(g * 2 + gn)); EV("affix of a huge text");
    // a huge affix of a short text is never one.
    string_view big{base, L}; TextView sm{end}; CHECK(!(fr ? sm.starts_with(big) : sm.ends_with(big)) && !(fr ? sm.starts_with_nocase(big) : sm.ends_with_nocase(big)), "affix", "a text of %zu has an affix of %zu", end.size(), L);
  }
}
