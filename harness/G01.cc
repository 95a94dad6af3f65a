// G01: scoped value changes and overload helpers.
#include "vh.h"
#include "swoc/swoc_meta.h"
#include "swoc/TextView.h"
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <variant>
using namespace vh;
using swoc::meta::let;

// A set of variables of diverse types, and the values they should hold.
struct Vars {
  int i = 0; std::string s; std::vector<int> v; Owned o; std::unique_ptr<int> u; std::map<std::string, int> m; std::optional<double> d; bool b = false;
};
struct Model {
  int i = 0; std::string s; std::vector<int> v; int o = 0; int u = -1; std::map<std::string, int> m; std::optional<double> d; bool b = false;
};
static void verify(Vars const &x, Model const &m, char const *when) {
  CHECK(x.i == m.i && x.b == m.b && x.d == m.d, "scoped value", "%s: simple value", when); CHECK(x.s == m.s, "scoped value", "%s: text %s expected %s", when, esc(x.s).c_str(), esc(m.s).c_str());
  CHECK(x.v == m.v && x.m == m.m, "scoped value", "%s: container", when); CHECK(x.o.get() == m.o, "scoped value", "%s: object %d expected %d", when, x.o.get(), m.o);
  CHECK((x.u ? *x.u : -1) == m.u, "scoped value", "%s: pointer to %d expected %d", when, x.u ? *x.u : -1, m.u); EV("scope checks");
}
struct Stop { int level; };
static std::string gtext(Rng &rng) { std::string s; for (u64 n = rng.below(rng.flip() ? 8 : 60); n; --n) s += char('a' + rng.below(26)); return s; }
static void modify(Rng &rng, Vars &x, Model &m) { // plain assignment inside of a scope, to be undone at the end of the scope.
  switch (rng.below(6)) {
  case 0: x.i = m.i = int(rng.below(99)); break; case 1: x.s = m.s = gtext(rng); break; case 2: x.v.push_back(3); m.v.push_back(3); break; case 3: m.o = int(rng.below(99)); x.o.set(m.o); break;
  case 4: m.u = int(rng.below(99)); x.u.reset(new int(m.u)); break; default: x.d.reset(); m.d.reset(); }
}
static void exec(Rng &rng, Vars &x, Model &m, int depth, int &budget);
static void inside(Rng &rng, Vars &x, Model &m, int depth, int &budget) {
  verify(x, m, "in scope"); for (u64 n = rng.below(3); n; --n) { if (rng.flip()) modify(rng, x, m); else exec(rng, x, m, depth + 1, budget); verify(x, m, "in scope"); }
  if (rng.chance(1, 8)) { EV("exceptional exits"); throw Stop{int(rng.below(u64(depth) + 1))}; }
}
// Only the variable scoped is restored, other changes made in the scope are retained.
template <typename X, typename MV> static void scope(Rng &rng, Vars &x, Model &m, int depth, int &budget, X &var, X val, MV &mvar, MV mval) {
  auto keep = mvar; T("%*slet", depth, "");
  try {
    if constexpr (std::is_copy_constructible_v<X>) {
      if (rng.flip()) { X const cv(val); let<X> guard(var, cv); mvar = mval; inside(rng, x, m, depth, budget); mvar = keep; return; }
    }
    let<X> guard(var, std::move(val)); mvar = mval; inside(rng, x, m, depth, budget); mvar = keep;
  } catch (Stop const &e) { mvar = keep; verify(x, m, "after an exception"); if (e.level < depth) throw; }
}
static void exec(Rng &rng, Vars &x, Model &m, int depth, int &budget) {
  if (--budget < 0 || depth > 8) return; int n = int(rng.below(1000)); std::string t = gtext(rng);
  auto run = [&](auto &var, auto val, auto &mvar, auto mval) { scope<std::decay_t<decltype(var)>>(rng, x, m, depth, budget, var, std::move(val), mvar, std::decay_t<decltype(mvar)>(mval)); };
  switch (rng.below(8)) {
  case 0: run(x.i, n, m.i, n); break;
  case 1: run(x.s, t, m.s, t); break;
  case 2: { std::vector<int> w(rng.below(20), n); run(x.v, w, m.v, w); break; }
  case 3: run(x.o, Owned(n), m.o, n); break;
  case 4: run(x.u, std::unique_ptr<int>(new int(n)), m.u, n); break;
  case 5: { std::map<std::string, int> w{{t, n}, {"k", 1}}; run(x.m, w, m.m, w); break; }
  case 6: { std::optional<double> dv(n / 7.0); run(x.d, dv, m.d, dv); break; }
  default: run(x.b, bool(n & 1), m.b, bool(n & 1)); break;
  }
  verify(x, m, "after scope"); obs(u64(depth)); obs(x.s); obs(u64(x.i)); obs(u64(x.o.get()));
}
SUB(scopes, 60000, 1000000, LEAK) {
  life() = {}; { Vars x; Model m; int budget = 40; x.s = m.s = gtext(rng); x.i = m.i = 5; for (u64 n = 1 + rng.below(4); n; --n) { try { exec(rng, x, m, 0, budget); } catch (Stop const &) { fail("scoped value", "exception escaped"); } verify(x, m, "top level"); } }
  CHECK(life().live == 0, "scope lifetime", "%ld objects left", long(life().live));
}
// Two scopes of the same variable, and scopes with deduced types.
SUB(nested_same, 20000, 200000, LEAK) {
  std::string s = gtext(rng), s0 = s; unsigned depth = 1 + unsigned(rng.below(12)); std::vector<std::string> st;
  std::function<void(unsigned)> go = [&](unsigned k) { if (k == 0) { if (rng.flip()) throw Stop{0}; return; } auto t = gtext(rng); auto keep = s; bool threw = false; try { let guard(s, std::string(t)); CHECK(s == t, "scoped value", "inner"); go(k - 1); CHECK(s == t, "scoped value", "restored to %s expected %s", s.c_str(), t.c_str()); } catch (Stop const &) { threw = true; } CHECK(s == keep, "scoped value", "level %u: %s expected %s", k, s.c_str(), keep.c_str()); if (threw) throw Stop{0}; };
  try { go(depth); } catch (Stop const &) { EV("unwound"); } CHECK(s == s0, "scoped value", "outermost"); obs(s); obs(u64(depth));
}
// Restoring does not depend on what the type's operators compare.
struct Lax { std::string name; int tag; bool operator==(Lax const &o) const { return name.size() == o.name.size(); } bool operator!=(Lax const &o) const { return !(*this == o); } };
struct Same { std::string name; int tag; friend bool operator==(Same const &, Same const &) { return true; } friend bool operator!=(Same const &, Same const &) { return false; } friend bool operator<(Same const &, Same const &) { return false; } };
struct Bare { std::string name; int tag; friend bool operator==(Bare const &, Bare const &) { return true; } friend bool operator!=(Bare const &, Bare const &) { return false; } };
struct MoveOnly { std::unique_ptr<std::string> p; int tag; friend bool operator==(MoveOnly const &, MoveOnly const &) { return true; } friend bool operator!=(MoveOnly const &, MoveOnly const &) { return false; } };
// No default construction, and a swap which must not matter.
struct NoDef { std::string name; int tag; NoDef(std::string n, int t) : name(std::move(n)), tag(t) {} NoDef(NoDef &&) = default; NoDef &operator=(NoDef &&) = default; NoDef(NoDef const &) = default; NoDef &operator=(NoDef const &) = default; friend bool operator==(NoDef const &, NoDef const &) { return true; } friend bool operator!=(NoDef const &, NoDef const &) { return false; } };
template <typename X, typename MK, typename EQ> static void opaque(Rng &rng, MK mk, EQ eq, char const *what) {
  std::string a = gtext(rng), b = rng.flip() ? gtext(rng) : a, c = gtext(rng); int x = int(rng.below(9)), y = int(rng.below(9)), z = int(rng.below(9)); T("%s %s/%d %s/%d", what, a.c_str(), x, b.c_str(), y);
  X var(mk(a, x)); bool thrown = rng.chance(1, 4);
  try {
    let<X> guard(var, mk(b, y)); CHECK(eq(var, b, y), "scoped value", "%s: in scope", what);
    if (rng.flip()) { let<X> inner(var, mk(c, z)); CHECK(eq(var, c, z), "scoped value", "%s: inner scope", what); }
    else if (rng.flip()) { var = mk(c, z); CHECK(eq(var, c, z), "scoped value", "%s: assigned", what); var = mk(b, y); }
    CHECK(eq(var, b, y), "scoped value", "%s: after inner scope", what); if (rng.flip()) var = mk(c, z); if (thrown) throw Stop{0};
  } catch (Stop const &) {}
  CHECK(eq(var, a, x), "scoped value", "%s: not restored", what); obs(u64(x * 100 + y * 10 + z)); EV("opaque scopes");
}
SUB(opaque_types, 20000, 400000, LEAK) {
  auto mem = [](auto const &v, std::string const &n, int t) { return v.name == n && v.tag == t; };
  switch (rng.below(6)) {
  case 0: opaque<Lax>(rng, [](std::string const &n, int t) { return Lax{n, t}; }, mem, "lax equality"); break;
  case 1: opaque<Same>(rng, [](std::string const &n, int t) { return Same{n, t}; }, mem, "constant equality"); break;
  case 2: opaque<Bare>(rng, [](std::string const &n, int t) { return Bare{n, t}; }, mem, "plain"); break;
  case 3: opaque<MoveOnly>(rng, [](std::string const &n, int t) { return MoveOnly{std::make_unique<std::string>(n), t}; }, [](MoveOnly const &v, std::string const &n, int t) { return v.p && *v.p == n && v.tag == t; }, "move only"); break;
  case 4: opaque<NoDef>(rng, [](std::string const &n, int t) { return NoDef(n, t); }, mem, "no default"); break;
  default: { // every bit pattern of a floating point value
    u64 a = rng.chance(1, 3) ? 0x7ff8000000000000ull | rng.below(99) : rng.chance(1, 4) ? rng.below(2) << 63 : rng.u(), b = rng.chance(1, 3) ? a ^ (1ull << 63) : rng.u(); double d, e; memcpy(&d, &a, 8); memcpy(&e, &b, 8); u64 q; { let g(d, e); memcpy(&q, &d, 8); CHECK(q == b, "scoped value", "floating point value in scope"); } memcpy(&q, &d, 8); CHECK(q == a, "scoped value", "floating point %016llx expected %016llx", (unsigned long long)q, (unsigned long long)a); EV("opaque scopes"); }
  }
}
// Visitors combined from lambdas dispatch to the lambda for the type.
SUB(dispatch, 10000, 100000, LEAK) {
  using V = std::variant<int, double, std::string, std::vector<int>, bool, char const *>; V v; int k = int(rng.below(6)); switch (k) { case 0: v = int(rng.below(9)); break; case 1: v = 1.5; break; case 2: v = gtext(rng); break; case 3: v = std::vector<int>(rng.below(4)); break; case 4: v.emplace<bool>(rng.flip()); break; default: v = "literal"; }
  int hits = 0; std::string base = "b"; auto vis = swoc::meta::vary{[&](int) { ++hits; return 0; }, [&](double) { ++hits; return 1; }, [&, base](std::string const &x) { ++hits; return 2 + 0 * int(x.size() + base.size()); }, [&](std::vector<int> const &) { ++hits; return 3; }, [&](bool) { ++hits; return 4; }, [&](char const *) { ++hits; return 5; }};
  int r = std::visit(vis, v); CHECK(r == k && hits == 1, "dispatch", "alternative %d went to %d (%d calls)", k, r, hits);
  auto gen = swoc::meta::vary{[](int) { return 0; }, [](auto const &) { return 1; }}; CHECK(std::visit(gen, v) == (k == 0 ? 0 : 1), "dispatch", "generic"); obs(u64(k)); EV("dispatches");
}
template <typename A> auto pick_case(A const &, swoc::meta::CaseTag<0>) -> int { return 0; }
template <typename A> auto pick_case(A const &a, swoc::meta::CaseTag<1>) -> decltype(a.size(), int()) { return 1; }
template <typename A> auto pick_case(A const &a, swoc::meta::CaseTag<2>) -> decltype(a.c_str(), int()) { return 2; }
template <typename A> auto pick_case(A const &, swoc::meta::CaseTag<9>) -> std::enable_if_t<std::is_same_v<A, char>, int> { return 9; }
template <typename... A> struct Count { static constexpr size_t n = sizeof...(A); };
template <typename T, typename U> static bool any_v() { return swoc::meta::is_any_of_v<T, U>; }
SUB(types, 1, 1, vh::EXHAUSTIVE) {
  using namespace swoc::meta; (void)rng;
  CHECK(pick_case(5, CaseArg) == 0 && pick_case(std::vector<int>{}, CaseArg) == 1 && pick_case(std::string(), CaseArg) == 2 && pick_case('x', CaseArg) == 9, "case order", "the most preferred viable overload is not selected"); CHECK(CaseTag<7>::value == 7 && CaseTag<0>::value == 0 && (std::is_base_of_v<CaseTag<2>, CaseTag<3>>), "case order", "tag values");
  bool a = is_any_of_v<int, char, int, long>, b = is_any_of_v<int>, c = is_any_of_v<int const, int>, d = is_any_of<int, unsigned, long>::value; CHECK(a && !b && !c && !d, "type membership", "%d%d%d%d", a, b, c, d);
  using L = type_list<int, std::string, char>; bool e = L::contains<char>, f = L::contains<unsigned char>, g = type_list<>::contains<int>; CHECK(L::size == 3 && type_list<>::size == 0 && e && !f && !g, "type list", "membership"); CHECK((std::is_same_v<L::apply<std::tuple>, std::tuple<int, std::string, char>>) && L::apply<Count>::n == 3, "type list", "application");
  bool h = is_homogenous<int, int, int>::value, i = is_homogenous<int, int, char>::value, j = is_homogenous<int>::value; CHECK(h && !i && j && (std::is_same_v<is_homogenous<int, int>::type, int>), "type homogeneity", "%d%d%d", h, i, j);
  int n = 5; CHECK((eraser<char>(n) == 5), "eraser", "value"); std::string s = "text"; CHECK((eraser<int>(std::string(s)) == s), "eraser", "text"); obs(u64(1)); EV("type checks");
}
