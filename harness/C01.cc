// C01: scaled integer arithmetic is exact with the documented rounding. Oracle: 128 bit rational arithmetic on count * scale.
#include "vh.h"
#include "swoc/Scalar.h"
#include "swoc/bwf_base.h"
#include <limits>
#include <numeric>
#include <sstream>
#include <type_traits>
using namespace vh; using swoc::Scalar; using I128 = __int128;
static I128 fdiv(I128 a, I128 b) { I128 q = a / b; return q * b > a ? q - 1 : q; }
static I128 cdiv(I128 a, I128 b) { return -fdiv(-a, b); }
template <class C> static bool fits(I128 v) { return v >= I128(std::numeric_limits<C>::min()) && v <= I128(std::numeric_limits<C>::max()); }
static long long L(I128 v) { return (long long)v; }
static std::string dec(I128 v) { if (v >= 0 && v > I128(INT64_MAX)) return std::to_string((unsigned long long)v); return std::to_string((long long)v); }
struct Lab { static constexpr char const *label = " units"; }; struct NoLab;
template <class C> static C gen(Rng &rng, bool nonneg, i64 step) { // counts near multiples of the interesting steps, small, and of every magnitude
  i64 v; switch (rng.below(7)) { case 6: v = i64(rng.u() >> (1 + rng.below(20))); break; case 0: v = i64(rng.below(20)); break; case 1: v = i64(rng.below(2000)) * step + i64(rng.below(3)) - 1; break; case 2: v = i64(rng.u() >> (20 + rng.below(44))); break; case 3: v = i64(rng.below(1 + u64(step))); break; case 4: v = step * i64(rng.below(9)); break; default: v = i64(rng.below(100000)); }
  if (!nonneg && rng.flip()) v = -v; if (nonneg && v < 0) v = -v; if (!fits<C>(v)) v = i64(C(v)); if (nonneg && v < 0) v = 0; return C(v);
}
template <class SC> static void is(SC const &s, I128 want, char const *w, long long a, long long b) { CHECK(I128(s.count()) == want, w, "%s: operands %lld %lld: count %lld expected %lld", w, a, b, L(s.count()), L(want)); EV("exact results"); obs(u64(want)); }

template <intmax_t N, class C, intmax_t S, class I, class Tag = swoc::tag::generic> static void pair_case(Rng &rng) {
  using A = Scalar<N, C, Tag>; using B = Scalar<S, I, Tag>; constexpr bool nn = std::is_unsigned_v<C> || std::is_unsigned_v<I>; constexpr intmax_t G = std::gcd(N, S);
  C ac = gen<C>(rng, nn, S / G); I bc = gen<I>(rng, nn, N / G); A const a(ac); B const b(bc); I128 av = I128(ac) * N, bv = I128(bc) * S; long long x = L(ac), y = L(bc); T("scale %lld count %lld, scale %lld count %lld", (long long)N, x, (long long)S, y);
  CHECK(a.count() == ac && b.count() == bc, "count", "count"); static_assert(A::SCALE == N && sizeof(A) == sizeof(C)); CHECK(A::scale() == N, "scale", "scale");
  if (fits<C>(av)) { CHECK(I128(a.value()) == av && I128(C(a)) == av, "value", "value %lld expected %lld", L(a.value()), L(av)); std::ostringstream o; o << a; std::string e = dec(av); if constexpr (std::is_same_v<Tag, Lab>) e += Lab::label; if constexpr (sizeof(C) > 1) { CHECK(o.str() == e, "print", "stream text %s expected %s", o.str().c_str(), e.c_str()); } }
  // --- conversion, both directions
  I128 up = cdiv(av, S), dn = fdiv(av, S); bool okup = fits<I>(up), okdn = fits<I>(dn);
  if (okup) { B t1 = swoc::round_up(a); is(t1, up, "round_up construct", x, 0); B t2(1); t2 = swoc::round_up(a); is(t2, up, "round_up assign", x, 0); B t3(swoc::round_up(a)); is(t3, up, "round_up", x, 0); if (fits<I>(up + bc)) { B t4(b); t4 += swoc::round_up(a); is(t4, up + bc, "add rounded up", x, y); } if (fits<I>(I128(bc) - up)) { B t4(b); t4 -= swoc::round_up(a); is(t4, I128(bc) - up, "subtract rounded up", x, y); } }
  if (okdn) { B t1 = swoc::round_down(a); is(t1, dn, "round_down construct", x, 0); B t2(1); t2 = swoc::round_down(a); is(t2, dn, "round_down assign", x, 0); if (fits<I>(dn + bc)) { B t4(b); t4 += swoc::round_down(a); is(t4, dn + bc, "add rounded down", x, y); } if (fits<I>(I128(bc) - dn)) { B t4(b); t4 -= swoc::round_down(a); is(t4, I128(bc) - dn, "subtract rounded down", x, y); } }
  if constexpr (N % S == 0) { I128 e = I128(ac) * (N / S); if (fits<I>(e) && fits<intmax_t>(e)) { B t1(a); is(t1, e, "implicit construct", x, 0); B t2; CHECK(t2.count() == 0, "default", "default count"); t2 = a; is(t2, e, "implicit assign", x, 0); B t3; t3.assign(a); is(t3, e, "assign", x, 0); if (fits<I>(e + bc)) { B t(b); t += a; is(t, e + bc, "add assign", x, y); } if (fits<I>(I128(bc) - e)) { B t(b); t -= a; is(t, I128(bc) - e, "subtract assign", x, y); } EV("implicit conversions"); } }
  // --- comparison by value
  if (fits<intmax_t>(av / G) && fits<intmax_t>(bv / G)) { bool lt = av < bv, eq = av == bv; CHECK((a < b) == lt && (a > b) == (!lt && !eq) && (a <= b) == (lt || eq) && (a >= b) == !lt && (a == b) == eq && (b < a) == (!lt && !eq) && (b == a) == eq, "compare", "counts %lld %lld: comparison of %lld and %lld", x, y, L(av), L(bv)); CHECK((a != b) == !eq && (b != a) == !eq, "compare-ne", "counts %lld %lld: inequality of %lld and %lld is %d", x, y, L(av), L(bv), a != b); EV("comparisons"); obs(u64(lt * 2 + eq)); }
  // --- sum and difference in the common scale
  using CT = std::common_type_t<C, I>; static_assert(decltype(a + b)::SCALE == (std::is_same_v<A, B> ? N : G)); 
  { I128 sa = av / G, sb = bv / G; if (fits<CT>(sa) && fits<CT>(sb)) { if (fits<CT>(sa + sb)) { is(a + b, sa + sb, "sum", x, y); is(b + a, sa + sb, "sum reversed", x, y); } if (fits<CT>(sa - sb)) { is(a - b, sa - sb, "difference", x, y); } if (fits<CT>(sb - sa)) is(b - a, sb - sa, "difference reversed", x, y); EV("common scale arithmetic"); } }
  // --- ratio: exact for non-negative, truncated or floored otherwise
  if (bc != 0 && fits<intmax_t>(av / G) && fits<intmax_t>(bv / G)) { I128 q = av / bv, f = bv > 0 ? fdiv(av, bv) : fdiv(-av, -bv); if (fits<CT>(q)) { auto r = a / b; CHECK(I128(r) == q || I128(r) == f, "ratio", "counts %lld %lld: ratio %lld expected %lld", x, y, L(r), L(q)); EV("ratios"); } }
}
template <intmax_t N, class C, class Tag = swoc::tag::generic> static void single_case(Rng &rng) {
  using A = Scalar<N, C, Tag>; constexpr bool nn = std::is_unsigned_v<C>; C ac = gen<C>(rng, nn, N), bc = gen<C>(rng, nn, N); A const a(ac); long long x = L(ac), y = L(bc); T("scale %lld counts %lld %lld", (long long)N, x, y);
  auto ok = [](I128 v) { return fits<C>(v); };
  { A t(a); A u(t); is(u, ac, "copy", x, y); u = A(bc); is(u, bc, "copy assign", x, y); A &r = t.assign(bc); CHECK(&r == &t, "return", "assign"); is(t, bc, "assign count", x, y); is(a(bc), bc, "call", x, y); }
  I128 A1 = ac, B1 = bc;
  if (ok(A1 + 1)) { A t(a); is(++t, A1 + 1, "pre increment", x, y); A v(a); is(v++, A1, "post increment", x, y); is(v, A1 + 1, "post increment", x, y); } if (ok(A1 - 1)) { A t(a); is(--t, A1 - 1, "pre decrement", x, y); A v(a); is(v--, A1, "post decrement", x, y); is(v, A1 - 1, "post decrement", x, y); }
  if (ok(A1 + B1)) { A t(a); is(t.inc(bc), A1 + B1, "inc", x, y); is(a.plus(bc), A1 + B1, "plus", x, y); is(a + A(bc), A1 + B1, "sum", x, y); A u(a); u += A(bc); is(u, A1 + B1, "add assign", x, y); is(a + swoc::round_up(A(bc)), A1 + B1, "sum with rounded", x, y); is(swoc::round_up(A(bc)) + a, A1 + B1, "rounded sum", x, y); is(a + swoc::round_down(A(bc)), A1 + B1, "sum with rounded", x, y); is(swoc::round_down(A(bc)) + a, A1 + B1, "rounded sum", x, y); A w(a); w += swoc::round_up(A(bc)); is(w, A1 + B1, "add rounded", x, y); A w2(a); w2 += swoc::round_down(A(bc)); is(w2, A1 + B1, "add rounded", x, y); w = swoc::round_up(A(bc)); is(w, B1, "same scale up assign", x, y); w = swoc::round_down(a); is(w, A1, "same scale down assign", x, y); w.assign(swoc::round_up(A(bc))); is(w, B1, "same scale up assign()", x, y); w.assign(swoc::round_down(a)); is(w, A1, "same scale down assign()", x, y); A w3{swoc::round_up(A(bc))}; is(w3, B1, "same scale up construct", x, y); A w4{swoc::round_down(A(bc))}; is(w4, B1, "same scale down construct", x, y); is(a, A1, "unchanged", x, y); }
  if (ok(A1 - B1)) { A t(a); is(t.dec(bc), A1 - B1, "dec", x, y); is(a.minus(bc), A1 - B1, "minus", x, y); is(a - A(bc), A1 - B1, "difference", x, y); A u(a); u -= A(bc); is(u, A1 - B1, "subtract assign", x, y); is(a - swoc::round_up(A(bc)), A1 - B1, "difference with rounded", x, y); is(swoc::round_up(a) - A(bc), A1 - B1, "rounded difference", x, y); is(a - swoc::round_down(A(bc)), A1 - B1, "difference with rounded", x, y); is(swoc::round_down(a) - A(bc), A1 - B1, "rounded difference", x, y); }
  { C m = gen<C>(rng, nn, 3); if (rng.flip()) m = C(i64(m) % 10); int mi = int(i64(m) % 1000); if (ok(A1 * I128(m)) && fits<i64>(A1 * m)) { if constexpr (sizeof(C) >= sizeof(int)) { is(a * m, A1 * m, "multiply", x, L(m)); is(m * a, A1 * m, "multiply reversed", x, L(m)); } A t(a); t *= m; is(t, A1 * m, "multiply assign", x, L(m)); } if (ok(A1 * mi) && ok(mi)) { is(a * mi, A1 * mi, "multiply by int", x, mi); is(mi * a, A1 * mi, "multiply by int reversed", x, mi); }
    if (m != 0 && !(std::is_signed_v<C> && m == C(-1))) { A t(a); t /= m; I128 q = A1 / I128(m), f = m > 0 ? fdiv(A1, m) : fdiv(-A1, -I128(m)); auto z = a / m; CHECK((I128(t.count()) == q || I128(t.count()) == f) && t.count() == z.count(), "divide", "count %lld by %lld: %lld and %lld expected %lld", x, L(m), L(t.count()), L(z.count()), L(q)); EV("divisions"); } }
  // --- units
  auto units = [&](auto u, char const *) { I128 uv = u, up = cdiv(uv, N), dn = fdiv(uv, N); long long ul = L(uv); T("units %lld", ul);
    if (ok(up)) { A t1 = swoc::round_up(u); is(t1, up, "units up construct", ul, N); A t2; t2 = swoc::round_up(u); is(t2, up, "units up assign", ul, N); A t3; t3.assign(swoc::round_up(u)); is(t3, up, "units up assign()", ul, N); if (ok(A1 + up)) { A t(a); t += swoc::round_up(u); is(t, A1 + up, "units up add", x, ul); is(a + swoc::round_up(u), A1 + up, "units up sum", x, ul); is(swoc::round_up(u) + a, A1 + up, "units up sum", x, ul); } if (ok(A1 - up)) { A t(a); t -= swoc::round_up(u); is(t, A1 - up, "units up subtract", x, ul); is(a - swoc::round_up(u), A1 - up, "units up difference", x, ul); } if (ok(up - A1)) is(swoc::round_up(u) - a, up - A1, "units up difference", ul, x); }
    if (ok(dn)) { A t1 = swoc::round_down(u); is(t1, dn, "units down construct", ul, N); A t2; t2 = swoc::round_down(u); is(t2, dn, "units down assign", ul, N); A t3; t3.assign(swoc::round_down(u)); is(t3, dn, "units down assign()", ul, N); if (ok(A1 + dn)) { A t(a); t += swoc::round_down(u); is(t, A1 + dn, "units down add", x, ul); is(a + swoc::round_down(u), A1 + dn, "units down sum", x, ul); is(swoc::round_down(u) + a, A1 + dn, "units down sum", x, ul); } if (ok(A1 - dn)) { A t(a); t -= swoc::round_down(u); is(t, A1 - dn, "units down subtract", x, ul); is(a - swoc::round_down(u), A1 - dn, "units down difference", x, ul); } if (ok(dn - A1)) is(swoc::round_down(u) - a, dn - A1, "units down difference", ul, x); }
    if (fits<decltype(u)>(up * N) && fits<intmax_t>(up * N)) CHECK(I128(swoc::round_up<N>(u)) == up * N, "round-units", "round_up<%lld>(%lld) is %lld", (long long)N, ul, L(swoc::round_up<N>(u))); if (fits<decltype(u)>(dn * N)) CHECK(I128(swoc::round_down<N>(u)) == dn * N, "round-units", "round_down<%lld>(%lld) is %lld", (long long)N, ul, L(swoc::round_down<N>(u))); EV("unit roundings"); };
  if constexpr (nn) { units(u64(gen<u64>(rng, true, N)), "u64"); units(u32(gen<u32>(rng, true, N)), "u32"); } else { units(gen<int>(rng, false, N), "int"); units(gen<i64>(rng, false, N), "i64"); }
}
SUB(int_int, 60000, 3000000, 0) {
  switch (rng.below(12)) { case 0: pair_case<1, int, 1024, int>(rng); break; case 1: pair_case<1024, int, 1, int>(rng); break; case 2: pair_case<30, int, 20, int>(rng); break; case 3: pair_case<9, int, 4, int>(rng); break; case 4: pair_case<4096, int, 512, int>(rng); break; case 5: pair_case<7, int, 7, int>(rng); break; case 6: pair_case<1000, int, 1024, int>(rng); break; case 7: pair_case<6, int, 10, int, Lab>(rng); break; case 8: pair_case<2, int, 3, int, NoLab>(rng); break; case 9: pair_case<1048576, int, 1000000, int>(rng); break; case 10: pair_case<12, int, 18, int>(rng); break; default: pair_case<100, int, 10, int, Lab>(rng); }
}
SUB(mixed_types, 60000, 3000000, 0) {
  switch (rng.below(12)) { case 0: pair_case<1024, int, 1, i64>(rng); break; case 1: pair_case<1, i64, 1024, int>(rng); break; case 2: pair_case<15, int16_t, 10, i64>(rng); break; case 3: pair_case<8192, i64, 133169152, i64>(rng); break; case 4: pair_case<512, u64, 4096, u64>(rng); break; case 5: pair_case<9, u32, 4, u32>(rng); break; case 6: pair_case<1024, int, 1024, i64>(rng); break; case 7: pair_case<6, int8_t, 4, int>(rng); break; case 8: pair_case<10, u64, 6, u32>(rng); break; case 9: pair_case<1024, i64, 1, i64, Lab>(rng); break; case 10: pair_case<1000, i64, 1024, i64>(rng); break; default: pair_case<3, int16_t, 5, int16_t>(rng); }
}
SUB(single, 60000, 3000000, 0) {
  switch (rng.below(9)) { case 0: single_case<1, int>(rng); break; case 1: single_case<1024, int>(rng); break; case 2: single_case<10, i64>(rng); break; case 3: single_case<4096, u64>(rng); break; case 4: single_case<7, int, Lab>(rng); break; case 5: single_case<512, u32>(rng); break; case 6: single_case<100, i64, Lab>(rng); break; case 7: single_case<3, int, NoLab>(rng); break; default: single_case<1048576, i64>(rng); }
}
// Every count in a window around zero for several ratio shapes.
template <intmax_t N, intmax_t S> static void window(int c) {
  Scalar<N> a(c); I128 v = I128(c) * N; Scalar<S> u = swoc::round_up(a), d = swoc::round_down(a); T("window %lld %lld %d", (long long)N, (long long)S, c); is(u, cdiv(v, S), "window up", c, S); is(d, fdiv(v, S), "window down", c, S); CHECK(swoc::round_up<N>(c) == cdiv(c, N) * N && swoc::round_down<N>(c) == fdiv(c, N) * N, "window-units", "rounding %d to %lld", c, (long long)N);
  for (int k = -6; k <= 6; ++k) { Scalar<S> b(c / 2 + k); I128 w = I128(b.count()) * S; CHECK((a < b) == (v < w) && (a == b) == (v == w) && (a <= b) == (v <= w) && (a > b) == (v > w) && (a >= b) == (v >= w) && (a != b) == (v != w), "window-compare", "%d of %lld with %d of %lld", c, (long long)N, b.count(), (long long)S); constexpr intmax_t G = std::gcd(N, S); is(a + b, (v + w) / G, "window sum", c, k); is(a - b, (v - w) / G, "window difference", c, k); }
}
SUB(exhaustive_window, 401, 4001, vh::EXHAUSTIVE) { int c = int(S().idx) - (vh::thorough() ? 2000 : 200); window<1, 2>(c); window<2, 1>(c); window<2, 3>(c); window<3, 2>(c); window<6, 4>(c); window<4, 6>(c); window<10, 100>(c); window<100, 10>(c); window<9, 4>(c); window<4, 9>(c); window<5, 5>(c); window<7, 64>(c); window<64, 7>(c); window<30, 20>(c); }
// Constant evaluation and formatting.
SUB(formatting, 5000, 100000, 0) {
  using K = Scalar<1024, i64, Lab>; using M = Scalar<1000, int>; constexpr Scalar<1, i64> c1(Scalar<1024>(3)); static_assert(c1.count() == 3072); static_assert(Scalar<10>(7).count() == 7 && Scalar<10>(7).value() == 70);
  i64 a = i64(rng.below(1u << 20)) * (rng.flip() ? 1 : -1); int b = int(rng.below(1000000)); T("%lld %d", (long long)a, b); swoc::LocalBufferWriter<100> w; w.print("{}|{}", K(a), M(b)); std::string e = std::to_string(a * 1024) + " units|" + std::to_string(i64(b) * 1000); eq_text(w.view(), e, "format", "scalar format"); obs(e); EV("formats");
}
