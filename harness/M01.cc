// M01: memory spans stay within their memory and address the right elements.
// Oracle: every span is mirrored by an (offset, count) pair of indices into one exactly sized heap array (ASan redzones both sides).
#include "vh.h"
#include "swoc/MemSpan.h"
#include "swoc/string_view_util.h"
#include "swoc/TextView.h"
#include <array>
#include <sys/mman.h>
#include <optional>
#include <stdexcept>
#include <type_traits>
using namespace vh; using swoc::MemSpan;
struct P24 { u64 a; u32 b; u8 c[12]; }; static_assert(sizeof(P24) == 24);
struct P3 { u8 c[3]; };
template <class E> struct Heap { E *p; size_t n; explicit Heap(size_t k) : p(static_cast<E *>(malloc(k * sizeof(E) ? k * sizeof(E) : 1))), n(k) { if (k == 0) { free(p); p = static_cast<E *>(malloc(1)); } } ~Heap() { free(p); } Heap(Heap const &) = delete; u8 *bytes() { return reinterpret_cast<u8 *>(p); } };
static size_t g_mul = 1; // scales element counts: large runs.
template <class E> static void fill(Heap<E> &h, Rng &rng, unsigned alphabet) { for (size_t i = 0; i < h.n * sizeof(E); ++i) h.bytes()[i] = u8(alphabet ? rng.below(alphabet) : rng.u()); }
static size_t any_count(Rng &rng, size_t n) { switch (rng.below(8)) { case 0: return 0; case 1: return n; case 2: return n + 1; case 3: return SIZE_MAX - rng.below(4); case 4: return n ? n - 1 : 0; case 5: return n + rng.below(100); default: return rng.below(n + 2); } }

// One span and its mirror. V is the element type seen by the span (E, E const, void, void const); unit is the size of one step.
template <class V, class E> struct Mirror {
  static constexpr bool untyped = std::is_void_v<V>; static constexpr size_t unit = untyped ? 1 : sizeof(E);
  using SP = MemSpan<V>; Heap<E> &h; size_t total; 
  Mirror(Heap<E> &hh) : h(hh), total(untyped ? hh.n * sizeof(E) : hh.n) {}
  V *at(size_t i) const { if constexpr (untyped) return h.bytes() + i; else return h.p + i; }
  u8 const *lo() const { return h.bytes(); } u8 const *hi() const { return h.bytes() + h.n * sizeof(E); }
  void check(SP const &s, size_t off, size_t cnt, char const *w) const {
    CHECK(s.size() == cnt && s.count() == cnt && s.length() == cnt, "size", "%s: size %zu expected %zu", w, s.size(), cnt);
    CHECK(s.data_size() == cnt * unit, "bytes", "%s: data_size %zu expected %zu", w, s.data_size(), cnt * unit);
    CHECK(s.empty() == (cnt == 0) && !s == (cnt == 0) && bool(s) == (cnt != 0), "empty", "%s: empty tests with %zu elements", w, cnt);
    auto p = static_cast<u8 const *>(static_cast<void const *>(s.data()));
    if (cnt) { CHECK(p == lo() + off * unit, "place", "%s: starts at byte %td expected %zu", w, p - lo(), off * unit); CHECK(static_cast<u8 const *>(static_cast<void const *>(s.data_end())) == p + cnt * unit, "place", "%s: data_end", w); CHECK(p >= lo() && p + cnt * unit <= hi(), "inside", "%s: outside the memory", w); }
    else CHECK(p == nullptr || (p >= lo() && p <= hi()), "inside", "%s: empty span points outside the memory", w);
    if constexpr (!untyped) {
      CHECK(s.begin() == s.data() && s.end() == s.data_end(), "iterate", "%s: begin or end", w); size_t k = 0; u64 sum = 0; for (auto &e : s) { CHECK(&e == h.p + off + k && &s[k] == &e, "iterate", "%s: element %zu", w, k); sum += *reinterpret_cast<u8 const *>(&e); ++k; } CHECK(k == cnt, "iterate", "%s: %zu elements of %zu", w, k, cnt); obs(sum);
      auto t = s; if (cnt) { CHECK(&t.front() == h.p + off && &t.back() == h.p + off + cnt - 1, "ends", "%s: front or back", w); }
      k = 0; t.apply([&](V &e) { CHECK(&e == h.p + off + k, "apply", "%s: element %zu", w, k); ++k; }); CHECK(k == cnt, "apply", "%s: %zu of %zu elements", w, k, cnt);
    } else { u64 sum = 0; for (size_t i = 0; i < cnt; ++i) sum += p[i]; obs(sum); }
    for (size_t i = (off ? off - 1 : 0); i <= off + cnt && i <= total; ++i) if (i == off || i + 1 >= off + cnt || i < off) { V const *q = at(i); CHECK(s.contains(q) == (i >= off && i < off + cnt), "contains", "%s: contains element %zu of [%zu,+%zu)", w, i, off, cnt); }
    EV("span verifications");
  }
  void history(Rng &rng) {
    size_t off = 0, cnt = total; std::optional<SP> o; switch (rng.below(4)) { case 0: o.emplace(at(0), total); break; case 1: o.emplace(at(0), at(total)); break; case 2: o.emplace(); o->assign(at(0), total); break; default: o.emplace(nullptr); CHECK(o->empty(), "empty", "from nullptr"); o->assign(at(0), at(total)); } SP &s = *o; check(s, off, cnt, "whole");
    for (size_t k = 1 + rng.below(10); k; --k) {
      size_t n = any_count(rng, cnt), m = std::min(n, cnt); SP r;
      switch (rng.below(untyped ? 9 : 13)) {
      case 0: T("prefix %zu", n); r = s.prefix(n); check(s, off, cnt, "source of prefix"); check(r, off, m, "prefix"); if (rng.flip()) { s = r; cnt = m; } break;
      case 1: T("suffix %zu", n); r = s.suffix(n); check(s, off, cnt, "source of suffix"); check(r, off + cnt - m, m, "suffix"); if (rng.flip()) { s = r; off += cnt - m; cnt = m; } break;
      case 2: { T("remove_prefix %zu", n); SP &x = s.remove_prefix(n); CHECK(&x == &s, "return", "remove_prefix"); off += m; cnt -= m; check(s, off, cnt, "remove_prefix"); break; }
      case 3: { T("remove_suffix %zu", n); SP &x = s.remove_suffix(n); CHECK(&x == &s, "return", "remove_suffix"); cnt -= m; check(s, off, cnt, "remove_suffix"); break; }
      case 4: T("clip_prefix %zu", n); r = s.clip_prefix(n); check(r, off, m, "clip_prefix result"); off += m; cnt -= m; check(s, off, cnt, "clip_prefix rest"); if (rng.chance(1, 4)) { s = r; off -= m; cnt = m; } break;
      case 5: T("clip_suffix %zu", n); r = s.clip_suffix(n); cnt -= m; check(r, off + cnt, m, "clip_suffix result"); check(s, off, cnt, "clip_suffix rest"); if (rng.chance(1, 4)) { s = r; off += cnt; cnt = m; } break;
      case 6: case 7: { size_t len = any_count(rng, cnt); T("subspan %zu %zu", n, len); r = s.subspan(n, len); size_t want = n >= cnt ? 0 : std::min(len, cnt - n); check(s, off, cnt, "source of subspan"); check(r, off + std::min(n, cnt), want, "subspan"); if (rng.flip() && want) { s = r; off += n; cnt = want; } break; }
      case 8: { T("reassign"); if (rng.chance(1, 4)) { s.clear(); CHECK(s.empty() && s.data() == nullptr, "clear", "cleared span"); } size_t a = rng.below(total + 1), b = a + rng.below(total - a + 1); if (rng.flip()) s.assign(at(a), b - a); else s.assign(at(a), at(b)); off = a; cnt = b - a; check(s, off, cnt, "assign"); break; }
      default: if constexpr (!untyped) switch (rng.below(4)) {
        case 0: T("first %zu", n); r = s.first(n); check(r, off, m, "first"); break;
        case 1: T("last %zu", n); r = s.last(n); check(r, off + cnt - m, m, "last"); break;
        default: { T("restrict %zu", n); SP &x = s.restrict(n); CHECK(&x == &s, "return", "restrict"); cnt = m; check(s, off, cnt, "restrict"); } }
      }
      SP c(s); CHECK(c.is_same(s) && c == s && !(c != s), "same", "copy differs"); obs(u64(off * 977 + cnt)); EV("span operations");
    }
  }
};
template <class E> static void histories(Rng &rng) {
  Heap<E> h(rng.below(g_mul * (rng.chance(1, 8) ? 300 : 12))); fill(h, rng, 0);
  switch (rng.below(4)) { case 0: T("typed"); Mirror<E, E>(h).history(rng); break; case 1: T("const"); Mirror<E const, E>(h).history(rng); break; case 2: T("void"); Mirror<void, E>(h).history(rng); break; default: T("void const"); Mirror<void const, E>(h).history(rng); }
}
SUB(views1, 30000, 1500000, LEAK) { if (rng.flip()) histories<char>(rng); else histories<u8>(rng); }
SUB(views4, 20000, 1000000, LEAK) { if (rng.flip()) histories<int>(rng); else histories<uint16_t>(rng); }
SUB(viewsN, 20000, 1000000, LEAK) { if (rng.flip()) histories<P24>(rng); else histories<P3>(rng); }

// ---- rebinding
template <class A, class B> static void rebind1(Rng &rng) {
  Heap<u8> h(rng.below(13) * (rng.chance(1, 3) ? 1 : sizeof(A)) + (rng.chance(1, 3) ? rng.below(8) : 0)); size_t n = h.n / sizeof(A); size_t start = 0; 
  u8 *raw = static_cast<u8 *>(h.p) + start; fill(h, rng, 0); 
  auto expect = [&](auto const &s, size_t bytes, char const *w) { using V = typename std::decay_t<decltype(s)>::value_type; size_t u; if constexpr (std::is_void_v<V>) u = 1; else u = sizeof(V); T("rebind %s %zu bytes unit %zu", w, bytes, u);
    CHECK(static_cast<void const *>(s.data()) == raw && s.data_size() == bytes && s.size() == bytes / u, "rebind", "%s: %zu elements %zu bytes expected %zu bytes", w, s.size(), s.data_size(), bytes); EV("rebinds"); };
  auto guard = [&](auto f, bool fits, size_t bytes, char const *w) { bool ok = true; try { f(); } catch (std::invalid_argument const &) { ok = false; } CHECK(ok == fits, "fit", "%s: %zu bytes to elements of %zu: %s", w, bytes, sizeof(B), ok ? "accepted" : "refused"); EV("fit decisions"); obs(u64(ok)); };
  MemSpan<A> s(reinterpret_cast<A *>(raw), n); size_t tb = n * sizeof(A); MemSpan<A const> sc(s); MemSpan<void> v(raw, h.n); MemSpan<void const> vc(raw, h.n);
  guard([&] { expect(s.template rebind<B>(), tb, "typed"); }, tb % sizeof(B) == 0, tb, "typed"); guard([&] { expect(s.template rebind<B const>(), tb, "typed to const"); }, tb % sizeof(B) == 0, tb, "typed to const"); guard([&] { expect(sc.template rebind<B const>(), tb, "const"); }, tb % sizeof(B) == 0, tb, "const");
  guard([&] { expect(v.template rebind<B>(), h.n, "void"); }, h.n % sizeof(B) == 0, h.n, "void"); guard([&] { expect(v.template rebind<B const>(), h.n, "void to const"); }, h.n % sizeof(B) == 0, h.n, "void to const"); guard([&] { expect(vc.template rebind<B const>(), h.n, "void const"); }, h.n % sizeof(B) == 0, h.n, "void const");
  expect(s.template rebind<void>(), tb, "to void"); expect(s.template rebind<void const>(), tb, "to void const"); expect(sc.template rebind<void const>(), tb, "const to void const"); expect(s.rebind(), tb, "default"); expect(sc.rebind(), tb, "const default"); static_assert(std::is_same_v<decltype(s.rebind()), MemSpan<void>> && std::is_same_v<decltype(sc.rebind()), MemSpan<void const>>);
  expect(v.template rebind<void>(), h.n, "void void"); expect(v.template rebind<void const>(), h.n, "void to void const"); expect(vc.template rebind<void const>(), h.n, "void const both");
  // implicit conversions and assignments
  MemSpan<void> w(s); expect(w, tb, "converted"); MemSpan<void const> wc(sc); expect(wc, tb, "const converted"); MemSpan<void const> w2(s), w3(v); expect(w2, tb, "to const"); expect(w3, h.n, "void to const"); static A elsewhere[3]; auto away = [&](auto &x) { if (rng.flip()) x = std::decay_t<decltype(x)>(elsewhere, 1 + rng.below(3)); else x = std::decay_t<decltype(x)>(); };
  away(w); w = v; expect(w, h.n, "assigned"); away(w); w = s; expect(w, tb, "assigned typed"); away(wc); wc = vc; expect(wc, h.n, "assigned const"); away(wc); wc = s; expect(wc, tb, "assigned typed"); away(wc); wc = sc; expect(wc, tb, "assigned const typed"); away(wc); wc = v; expect(wc, h.n, "assigned void"); MemSpan<A const> s2; away(s2); s2 = s; expect(s2, tb, "const assigned"); away(s2); s2 = sc; expect(s2, tb, "const assigned const"); MemSpan<A> s3; away(s3); s3 = s; expect(s3, tb, "assigned same"); MemSpan<A> s4(std::move(s3)); expect(s4, tb, "moved"); away(s3); s3 = std::move(s4); expect(s3, tb, "move assigned"); MemSpan<void> v4(std::move(v)); expect(v4, h.n, "moved void"); away(v); v = v4; expect(v, h.n, "void again");
  // single object access
  guard([&] { CHECK(static_cast<void *>(v.template as_ptr<B>()) == raw, "as_ptr", "pointer"); }, h.n == sizeof(B), h.n, "as_ptr"); guard([&] { CHECK(static_cast<void const *>(vc.template as_ptr<B>()) == raw, "as_ptr", "pointer"); }, h.n == sizeof(B), h.n, "as_ptr const");
}
SUB(rebinding, 20000, 800000, LEAK) {
  switch (rng.below(8)) { case 0: rebind1<u8, u32>(rng); break; case 1: rebind1<u32, u8>(rng); break; case 2: rebind1<u32, uint16_t>(rng); break; case 3: rebind1<uint16_t, u64>(rng); break; case 4: rebind1<char, P3>(rng); break; case 5: rebind1<u64, P24>(rng); break; case 6: rebind1<P24, u64>(rng); break; default: rebind1<int, float>(rng); }
}

// ---- alignment
struct alignas(16) A16 { u8 c[48]; }; struct A2 { uint16_t v[3]; };
template <class S> static void align_one(Rng &rng, u8 *base, size_t room) {
  size_t off = rng.below(room + 1), n = rng.below(room - off + 1); S s(base + off, n); auto p = reinterpret_cast<uintptr_t>(base + off);
  auto chk = [&](S const &r, size_t a, size_t obj, char const *w) { uintptr_t q = p; while (q % a) ++q; size_t pad = q - p; size_t want = n > pad ? (n - pad) / obj * obj : 0; T("align %s %zu object %zu offset %zu size %zu", w, a, obj, size_t(p % a), n);
    auto got = reinterpret_cast<uintptr_t>(r.data()); CHECK(got == q, "align", "%s: alignment %zu from offset %zu: moved %td expected %zu", w, a, size_t(p % a), std::ptrdiff_t(got - p), pad); CHECK(r.size() == want, "align-size", "%s: %zu bytes expected %zu", w, r.size(), want); if (want) CHECK(got >= p && got + r.size() <= p + n, "inside", "%s: outside the memory", w); EV("alignments"); obs(u64(pad * 64 + want)); };
  size_t a = size_t(1) << rng.below(g_mul > 1 ? 14 : 8), obj = a * (1 + rng.below(4)); chk(s.align(a), a, 1, "align(n)"); chk(s.align(a, obj), a, obj, "align(n,size)"); { size_t o2 = 1 + rng.below(rng.flip() ? a + 1 : 40); chk(s.align(a, o2), a, o2, "align(n,any size)"); } chk(s.template align<u64>(), alignof(u64), sizeof(u64), "align<u64>"); chk(s.template align<A16>(), 16, 48, "align<A16>"); chk(s.template align<A2>(), 2, 6, "align<A2>"); chk(s.template align<char>(), 1, 1, "align<char>");
}
static void aligning(Rng &rng) { size_t room = 1 + rng.below(300 * g_mul); Heap<u8> h(room); if (rng.flip()) align_one<MemSpan<void>>(rng, h.p, room); else align_one<MemSpan<void const>>(rng, h.p, room); }
SUB(alignment, 20000, 800000, 0) { aligning(rng); }

// ---- comparison
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
template <class E> static void comparing(Rng &rng) {
  Heap<E> x(rng.below(9 * g_mul)), y(rng.flip() ? x.n : rng.below(9 * g_mul)); unsigned al = rng.flip() ? 2 : 0; fill(x, rng, al); if (rng.flip()) fill(y, rng, al); else { for (size_t i = 0; i < y.n * sizeof(E); ++i) y.bytes()[i] = i < x.n * sizeof(E) ? x.bytes()[i] : u8(rng.u()); if (y.n && rng.chance(2, 3)) { size_t i = rng.below(y.n * sizeof(E)); y.bytes()[i] ^= u8(1u << rng.below(8)); } }
  size_t xb = x.n * sizeof(E), yb = y.n * sizeof(E), mb = std::min(xb, yb); int r = mb ? memcmp(x.bytes(), y.bytes(), mb) : 0; bool eq = xb == yb && r == 0; T("compare %zu with %zu elements of %zu bytes", x.n, y.n, sizeof(E));
  auto go = [&](auto const &a, auto const &b, char const *w) { CHECK((a == b) == eq && (b == a) == eq && (a != b) == !eq, "equal", "%s: spans of %zu and %zu bytes: equality is %d expected %d", w, xb, yb, a == b, eq); int f = swoc::memcmp(a, b), g = swoc::memcmp(b, a); if (r) CHECK(sgn(f) == sgn(r) && sgn(g) == -sgn(r), "memcmp", "%s: memcmp %d and %d for content order %d", w, f, g, r); else if (eq) CHECK(f == 0 && g == 0, "memcmp", "%s: memcmp %d for equal spans", w, f); else CHECK(f && sgn(f) == -sgn(g), "memcmp", "%s: memcmp %d and %d for sizes %zu %zu", w, f, g, xb, yb); CHECK(a.is_same(a) && !a.is_same(b), "same", "%s: is_same", w); obs(u64(sgn(f) + 1)); EV("comparisons"); };
  MemSpan<E> a(x.p, x.n), b(y.p, y.n); if (x.n || y.n) { go(a, b, "typed"); go(MemSpan<E const>(a), MemSpan<E const>(b), "const"); go(MemSpan<void const>(a), MemSpan<void const>(b), "void const"); go(MemSpan<void>(a), MemSpan<void>(b), "void"); }
  MemSpan<E> e1, e2; CHECK(e1 == e2 && swoc::memcmp(e1, e2) == 0, "equal", "default spans"); CHECK((e1 == a) == a.empty(), "equal", "default with %zu", x.n); (void)swoc::memcmp(e1, a);
}
SUB(compare, 40000, 1500000, LEAK) { switch (rng.below(5)) { case 0: comparing<char>(rng); break; case 1: comparing<u8>(rng); break; case 2: comparing<uint16_t>(rng); break; case 3: comparing<u32>(rng); break; default: comparing<P24>(rng); } }

// ---- copy and fill: bytes outside the target span never change
template <class E> static void copying(Rng &rng) {
  Heap<E> d(1 + rng.below(12 * g_mul)), s(1 + rng.below(12 * g_mul)); fill(d, rng, 0); fill(s, rng, 0); size_t dof = rng.below(d.n + 1), dn = rng.below(d.n - dof + 1), sof = rng.below(s.n + 1), sn = rng.below(s.n - sof + 1); std::vector<u8> before(d.bytes(), d.bytes() + d.n * sizeof(E)), src(s.bytes(), s.bytes() + s.n * sizeof(E));
  MemSpan<E> dst(d.p + dof, dn), from(s.p + sof, sn); std::vector<u8> want = before; auto put = [&](size_t at, u8 const *p, size_t n) { for (size_t i = 0; i < n; ++i) want[at + i] = p[i]; };
  unsigned how = unsigned(rng.below(6)); void const *ret = nullptr; T("copy %u to [%zu,+%zu) from [%zu,+%zu) elements of %zu", how, dof, dn, sof, sn, sizeof(E)); size_t B = sizeof(E);
  switch (how) {
  case 0: ret = swoc::memcpy(dst, from); put(dof * B, src.data() + sof * B, std::min(dn, sn) * B); break;
  case 1: if (s.n - sof >= dn) { ret = swoc::memcpy(dst, s.p + sof); put(dof * B, src.data() + sof * B, dn * B); } break;
  case 2: if (d.n - dof >= sn) { ret = swoc::memcpy(d.p + dof, from); put(dof * B, src.data() + sof * B, sn * B); } break;
  case 3: { E v; for (size_t i = 0; i < B; ++i) reinterpret_cast<u8 *>(&v)[i] = u8(rng.u()); auto const &r = swoc::memset(dst, v); CHECK(r.is_same(dst), "return", "memset"); for (size_t i = 0; i < dn; ++i) put((dof + i) * B, reinterpret_cast<u8 *>(&v), B); break; }
  case 4: { MemSpan<void> vd(dst); char c = char(rng.u()); auto const &r = swoc::memset(vd, c); CHECK(r.is_same(vd), "return", "memset"); for (size_t i = 0; i < dn * B; ++i) want[dof * B + i] = u8(c); break; }
  default: { MemSpan<void> vd(dst); std::string_view sv(reinterpret_cast<char const *>(s.p + sof), sn * B); ret = swoc::memcpy(vd, sv); put(dof * B, src.data() + sof * B, std::min(dn, sn) * B); } }
  if (ret) CHECK(ret == d.p + dof, "return", "destination not returned");
  for (size_t i = 0; i < want.size(); ++i) CHECK(d.bytes()[i] == want[i], "copy", "byte %zu of the target array (span at %zu) is %u expected %u", i, dof * B, d.bytes()[i], want[i]); CHECK(0 == memcmp(src.data(), s.bytes(), src.size()), "source", "source changed"); CHECK(dst.data() == d.p + dof && dst.size() == dn, "span", "span changed"); obs(hash_bytes(want.data(), want.size())); EV("copies and fills");
}
static void text_copying(Rng &rng) {
  Heap<char> d(rng.below(20 * g_mul)); fill(d, rng, 0); std::string b(d.p, d.n); size_t o = rng.flip() ? 0 : rng.below(d.n + 1), n = rng.flip() ? d.n - o : rng.below(d.n - o + 1); MemSpan<char> s(d.p + o, n); HText t(std::string(rng.below(24 * g_mul), char('a' + rng.below(26)))); T("memcpy %zu of %zu at %zu", t.view().size(), n, o);
    if (rng.chance(1, 3)) { auto v = t.view().substr(0, n); CHECK(memcpy(static_cast<void *>(d.p + o), v) == d.p + o, "return", "raw destination"); b.replace(o, v.size(), v); }
    if (rng.flip()) { CHECK(swoc::memcpy(s, t.view()) == d.p + o, "return", "destination"); size_t m = std::min(n, t.view().size()); b.replace(o, m, t.view().substr(0, m)); } else { u8 c = u8(rng.u()); MemSpan<u8> us(reinterpret_cast<u8 *>(d.p + o), n); swoc::memset(us, char(c)); b.replace(o, n, n, char(c)); }
  if (rng.flip()) { MemSpan<void> vs(s); CHECK(swoc::memcpy(vs, t.view()) == d.p + o, "return", "destination"); size_t m = std::min(n, t.view().size()); b.replace(o, m, t.view().substr(0, m)); } CHECK(std::string_view(d.p, d.n) == b, "copy", "got %s expected %s", esc({d.p, d.n}).c_str(), esc(b).c_str()); MemSpan<char> e; swoc::memset(e, 'x'); swoc::memset(MemSpan<void>(), 'x'); swoc::memcpy(e, t.view()); swoc::memcpy(e, s); swoc::memcpy(s, e); CHECK(std::string_view(d.p, d.n) == b, "copy", "empty copy wrote"); EV("copies and fills");
}
SUB(copy, 40000, 1500000, LEAK) {
  switch (rng.below(6)) { case 0: copying<char>(rng); break; case 1: copying<u8>(rng); break; case 2: copying<uint16_t>(rng); break; case 3: copying<u64>(rng); break; case 4: copying<P24>(rng); break;
  default: text_copying(rng); }
}

// ---- objects constructed in a span
SUB(objects, 20000, 500000, LEAK) {
  life().reset(); { Heap<Owned> h(rng.chance(1, 40) ? rng.below(3000) : rng.below(9)); size_t o = rng.below(h.n + 1), n = rng.below(h.n - o + 1); std::vector<u8> before(h.bytes(), h.bytes() + h.n * sizeof(Owned)); memset(h.p, 0x5a, h.n * sizeof(Owned)); MemSpan<Owned> s(h.p + o, n); int x = int(rng.below(1000)); T("make %zu", n);
    auto &r = s.make(x); CHECK(&r == &s && s.size() == n && life().live == i64(n), "make", "%lld objects made for %zu elements", (long long)life().live, n); for (auto &e : s) CHECK(e.get() == x, "make", "value"); for (size_t i = 0; i < h.n * sizeof(Owned); ++i) if (i < o * sizeof(Owned) || i >= (o + n) * sizeof(Owned)) CHECK(h.bytes()[i] == 0x5a, "inside", "byte %zu outside the span written", i);
    s.destroy(); CHECK(life().live == 0, "destroy", "%lld objects left", (long long)life().live); obs(u64(n)); EV("object spans"); }
}
// ---- construction from containers and arrays
template <class A, class B> static void is(A const &s, B *p, size_t n, char const *w) { CHECK(static_cast<void const *>(s.data()) == static_cast<void const *>(p) && s.size() == n, "construct", "%s: %zu elements expected %zu", w, s.size(), n); EV("constructions"); }
SUB(construct, 5000, 100000, LEAK) {
  int a[5]; std::array<u64, 4> ar{}; auto const &car = ar; size_t n = 1 + rng.below(40); std::vector<int> v(n); auto const &cv = v; std::string str(n, 'x'); auto const &cs = str; std::string_view sv{str}; swoc::TextView tv{str}; T("size %zu", n);
  is(MemSpan<int>(a), a, 5, "array"); is(MemSpan<int const>(a, 3), a, 3, "array count"); is(MemSpan<void>(a), a, sizeof a, "array void"); is(MemSpan<void const>(a), a, sizeof a, "array void const"); is(MemSpan(a), a, 5, "deduced array"); is(MemSpan<u64>(ar), ar.data(), 4, "std array"); is(MemSpan<u64 const>(car), ar.data(), 4, "const std array"); is(MemSpan<u64 const>(ar), ar.data(), 4, "const from std array"); is(MemSpan(ar), ar.data(), 4, "deduced std array"); is(MemSpan(car), ar.data(), 4, "deduced const std array"); is(MemSpan<void>(ar), ar.data(), 32, "std array void"); is(MemSpan<void const>(car), ar.data(), 32, "std array void const");
  is(MemSpan<int>(v), v.data(), n, "vector"); is(MemSpan<int const>(cv), v.data(), n, "const vector"); is(MemSpan<int const>(v), v.data(), n, "const from vector"); is(MemSpan(v), v.data(), n, "deduced vector"); is(MemSpan(cv), v.data(), n, "deduced const vector"); is(MemSpan<void>(v), v.data(), n * sizeof(int), "vector void"); is(MemSpan<void const>(cv), v.data(), n * sizeof(int), "vector void const");
  is(MemSpan<char>(str), str.data(), n, "string"); is(MemSpan<char const>(cs), str.data(), n, "const string"); is(MemSpan<char const>(sv), str.data(), n, "string_view"); is(MemSpan<char const>(tv), str.data(), n, "text view"); is(MemSpan(str), str.data(), n, "deduced string"); is(MemSpan(cs), str.data(), n, "deduced const string"); is(MemSpan(sv), str.data(), n, "deduced view"); is(MemSpan<void const>(tv), str.data(), n, "text view void const"); is(MemSpan<void>(str), str.data(), n, "string void"); is(MemSpan<void const>(sv), str.data(), n, "view void const");
  static_assert(std::is_same_v<decltype(MemSpan(cs)), MemSpan<char const>> && std::is_same_v<decltype(MemSpan(str)), MemSpan<char>> && std::is_same_v<decltype(MemSpan(cv)), MemSpan<int const>>);
  { swoc::unique_malloc<int> um(static_cast<int *>(malloc(n * sizeof(int)))); MemSpan<int> ms(um.get(), n); swoc::memset(ms, 7); is(ms, um.get(), n, "malloc memory"); swoc::unique_malloc<int> u2(std::move(um)); CHECK(!um && u2.get() == ms.data(), "unique_malloc", "moved"); if (rng.flip()) u2.reset(); }
  static char const lit[] = "abcdef"; is(MemSpan<char const>(lit), lit, 6, "literal"); is(MemSpan<void const>(lit), lit, 6, "literal void"); is(MemSpan(lit), lit, 6, "deduced literal"); static char const raw[3] = {'a', 'b', 'c'}; is(MemSpan<char const>(raw), raw, 3, "unterminated"); is(MemSpan<void const>(raw), raw, 3, "unterminated void"); u8 ub[3] = {1, 2, 0}; is(MemSpan<u8>(ub), ub, 3, "bytes"); is(MemSpan<void const>(ub), ub, 3, "bytes void"); is(MemSpan<int>(nullptr), (int *)nullptr, 0, "null"); is(MemSpan<void>(nullptr), (int *)nullptr, 0, "null"); is(MemSpan<void const>(nullptr), (int *)nullptr, 0, "null"); is(MemSpan<int>(), (int *)nullptr, 0, "default"); obs(u64(n));
}

// Scale: spans of kilobytes and megabytes.
SUB(large, 2400, 60000, LEAK) {
  g_mul = size_t(1) << (4 + rng.below(10));
  switch (rng.below(12)) { case 0: comparing<char>(rng); break; case 1: comparing<u8>(rng); break; case 2: comparing<uint16_t>(rng); break; case 3: comparing<P24>(rng); break; case 4: copying<char>(rng); break; case 5: copying<u64>(rng); break; case 6: copying<P24>(rng); break; case 7: g_mul = std::min<size_t>(g_mul, rng.chance(1, 4) ? 512 : 64); histories<u8>(rng); break; case 8: g_mul = std::min<size_t>(g_mul, rng.chance(1, 4) ? 512 : 64); histories<P24>(rng); break; case 9: copying<uint16_t>(rng); break; case 10: g_mul = size_t(1) << (rng.flip() ? 13 : 4 + rng.below(9)); text_copying(rng); break; default: aligning(rng); }
  g_mul = 1; EV("large spans");
}

// Cuts of spans of any size: only the arithmetic is observed, the memory is reserved and never touched (PROT_NONE), so spans pass 2^16, 2^31 and 2^32 elements.
static u8 *reserve(size_t n) { static u8 *p = [n] { void *q = mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return q == MAP_FAILED ? nullptr : static_cast<u8 *>(q); }(); return p; }
static size_t some_size(Rng &rng, size_t limit) { static int const bits[] = {8, 12, 15, 16, 17, 20, 24, 31, 32, 33}; size_t v; switch (rng.below(5)) { case 0: v = rng.below(limit + 1); break; case 1: v = limit - std::min<size_t>(limit, rng.below(5)); break; case 2: v = rng.below(limit + 1) >> rng.below(34); break; default: v = (size_t(1) << bits[rng.below(10)]) + rng.below(7) - 3; } return v; }
template <class V, class E> static void cuts(Rng &rng) {
  constexpr size_t RES = size_t(3) << 32, unit = std::is_void_v<V> ? 1 : sizeof(E); u8 *base = reserve(RES); if (!base) return; /* no address space here: its events are missing from the evidence */ size_t total = std::min(some_size(rng, RES / unit), RES / unit);
  using SP = MemSpan<V>; SP s(static_cast<V *>(static_cast<void *>(base)), total); size_t off = 0, cnt = total;
  auto ck = [&](SP const &x, size_t o, size_t c, char const *w) { CHECK(x.size() == c && x.count() == c && x.length() == c && x.data_size() == c * unit && x.empty() == (c == 0), "size", "%s: %zu elements, %zu bytes, expected %zu of %zu bytes", w, x.size(), x.data_size(), c, unit); auto p = static_cast<u8 const *>(static_cast<void const *>(x.data())); if (c) CHECK(p == base + o * unit && static_cast<u8 const *>(static_cast<void const *>(x.data_end())) == p + c * unit, "place", "%s: starts at byte %td expected %zu", w, p - base, o * unit); };
  ck(s, off, cnt, "whole");
  for (int k = 0; k < 8; ++k) {
    size_t n = some_size(rng, cnt), m = std::min(n, cnt), len = some_size(rng, cnt); SP r; bool take = rng.flip();
    switch (rng.below(7)) {
    case 0: T("prefix %zu of %zu", n, cnt); r = s.prefix(n); ck(r, off, m, "prefix"); if (take) { s = r; cnt = m; } break;
    case 1: T("suffix %zu of %zu", n, cnt); r = s.suffix(n); ck(r, off + cnt - m, m, "suffix"); if (take) { s = r; off += cnt - m; cnt = m; } break;
    case 2: T("remove_prefix %zu of %zu", n, cnt); s.remove_prefix(n); off += m; cnt -= m; break;
    case 3: T("remove_suffix %zu of %zu", n, cnt); s.remove_suffix(n); cnt -= m; break;
    case 4: T("clip_prefix %zu of %zu", n, cnt); r = s.clip_prefix(n); ck(r, off, m, "clip_prefix"); off += m; cnt -= m; break;
    case 5: T("clip_suffix %zu of %zu", n, cnt); r = s.clip_suffix(n); cnt -= m; ck(r, off + cnt, m, "clip_suffix"); break;
    default: { T("subspan %zu %zu of %zu", n, len, cnt); r = s.subspan(n, len); size_t want = n >= cnt ? 0 : std::min(len, cnt - n); ck(r, off + m, want, "subspan"); if (take && want) { s = r; off += n; cnt = want; } } }
    ck(s, off, cnt, "after the step"); if (cnt) { CHECK(s.contains(reinterpret_cast<std::conditional_t<std::is_void_v<V>, void const, E const> *>(base + off * unit)) && s.contains(reinterpret_cast<std::conditional_t<std::is_void_v<V>, void const, E const> *>(base + (off + cnt - 1) * unit)) && !s.contains(reinterpret_cast<std::conditional_t<std::is_void_v<V>, void const, E const> *>(base + (off + cnt) * unit)), "contains", "ends of a span of %zu", cnt); }
    if constexpr (std::is_void_v<V>) if (cnt) {
      size_t al = size_t(1) << rng.below(rng.flip() ? 6 : 34), obj = rng.flip() ? some_size(rng, RES) + 1 : 1 + rng.below(70); uintptr_t at = reinterpret_cast<uintptr_t>(base) + off, to = (at + al - 1) / al * al; size_t pad = to - at, left = cnt > pad ? cnt - pad : 0; T("align %zu object %zu, %zu bytes, padding %zu", al, obj, cnt, pad);
      auto as = [&](SP const &x, size_t w, char const *what) { CHECK(reinterpret_cast<uintptr_t>(x.data()) == to, "align", "%s: moved %td expected %zu", what, std::ptrdiff_t(reinterpret_cast<uintptr_t>(x.data()) - at), pad); CHECK(x.size() == w, "align-size", "%s: %zu bytes expected %zu", what, x.size(), w); EV("alignments"); };
      as(s.align(al), left, "align(n)"); as(s.align(al, obj), left / obj * obj, "align(n,size)");
      if (cnt >= 16) { auto t = s.template rebind<std::conditional_t<std::is_const_v<V>, u8 const, u8>>(); CHECK(t.size() == cnt && static_cast<void const *>(t.data()) == static_cast<void const *>(s.data()), "rebind", "%zu bytes as bytes gives %zu", cnt, t.size()); } }
    obs(u64(off * 31 + cnt)); EV("cuts of huge spans");
  }
}
SUB(huge_cuts, 20000, 1000000, 0) { switch (rng.below(6)) { case 0: cuts<char, char>(rng); break; case 1: cuts<uint16_t, uint16_t>(rng); break; case 2: cuts<u64, u64>(rng); break; case 3: cuts<void, u8>(rng); break; case 4: cuts<void const, u8>(rng); break; default: cuts<P24 const, P24>(rng); } }
