// L01: a lexicon maps names and values exactly as defined.
#include "vh.h"
#include "swoc/Lexicon.h"
#include "swoc/bwf_base.h"
#include <algorithm>
#include <map>
#include <set>
#include <optional>
using namespace vh; using swoc::TextView; using namespace std::literals;
enum class Color : int { RED = -3 }; enum Plain : short { PLAIN_A };
enum class Bad : unsigned { X };
// A poor hash for one value type.
namespace swoc { inline namespace SWOC_VERSION_NS { template <> size_t Lexicon_Hash<Bad>(Bad b) { return size_t(b) % 3; } }}

static std::string lower(std::string_view s) { std::string r(s); for (auto &c : r) if (c >= 'A' && c <= 'Z') c = char(c + 32); return r; }
static std::string mixcase(Rng &rng, std::string s) { for (auto &c : s) if (isalpha((unsigned char)c) && (unsigned char)c < 128 && rng.flip()) c = char(c ^ 32); return s; }

template <class E> struct Drv {
  using Lex = swoc::Lexicon<E>; using I = long long; Rng &rng; std::unique_ptr<Lex> lex; std::map<I, std::string> primary; std::map<std::string, std::pair<I, std::string>> names; // lower case -> value, exact
  std::optional<I> dv; std::optional<std::string> dn; bool hv = false, hn = false; std::vector<std::string> pool; size_t domain; std::string h_name; int calls = 0; static constexpr int SALT = 77;
  explicit Drv(Rng &r) : rng(r) { domain = rng.chance(1, 3) ? 1 + rng.below(4) : 4 + rng.below(60); size_t n = domain * 3 + 4; for (size_t i = 0; i < n; ++i) pool.push_back(name(i)); }
  std::string name(size_t i) { std::string s; switch (rng.below(8)) { case 0: s = "n" + std::to_string(i); break; case 1: s = std::string(1 + i % 5, char('a' + i % 26)) + std::to_string(i); break; case 2: s = std::string(200 + rng.below(2000), 'q') + std::to_string(i); break; case 3: s = "\xc3\xa9" + std::to_string(i) + "\xff"; break; case 4: s = " " + std::to_string(i) + " x"; break; case 5: s = i == 0 ? "" : "Name-" + std::to_string(i); break; case 6: s = "[{}]@`" + std::to_string(i); break; default: s = "Az_" + std::to_string(i) + "zA"; } return mixcase(rng, s); }
  I value() { return I(rng.below(domain)) - (std::is_signed_v<std::underlying_type_t<E>> ? 3 : 0); }
  void defaults(typename Lex::Default const *) {}
  std::function<E(TextView)> fv() { return [this](TextView n) { ++calls; h_name = std::string(n); return E(SALT + int(n.size())); }; }
  std::function<TextView(E)> fn() { return [this](E v) { ++calls; static thread_local std::string t; t = "value " + std::to_string(I(v)); return TextView(t); }; }
  void set_default() {
    switch (rng.below(4)) {
    case 0: { I v = value(); T("default value %lld", v); lex->set_default(E(v)); dv = v; hv = false; break; }
    case 1: { auto s = name(rng.below(50)); HText h(s); T("default name %s", esc(s, 20).c_str()); lex->set_default(TextView(h.view())); dn = s; hn = false; break; }
    case 2: T("value handler"); lex->set_default(typename Lex::UnknownNameHandler(fv())); hv = true; dv.reset(); break;
    default: T("name handler"); lex->set_default(typename Lex::UnknownValueHandler(fn())); hn = true; dn.reset(); break;
    }
  }
  void apply(I v, std::string const &n) { names[lower(n)] = {v, n}; primary.emplace(v, n); }
  void define() {
    I v = value(); size_t k = 1 + rng.below(3); std::vector<std::string> ns; std::set<std::string> used; for (size_t i = 0; i < k; ++i) { auto n = mixcase(rng, rng.pick(pool)); if (names.count(lower(n)) || used.count(lower(n))) continue; used.insert(lower(n)); ns.push_back(n); }
    if (ns.empty()) { // first name is a duplicate: must be rejected with nothing changed
      if (names.empty()) return; auto it = names.begin(); std::advance(it, rng.below(names.size())); auto n = mixcase(rng, it->second.second); HText h(n); T("duplicate %s", esc(n, 20).c_str()); bool threw = false; try { lex->define(E(v), TextView(h.view())); } catch (std::invalid_argument const &) { threw = true; } CHECK(threw, "duplicate", "name %s defined twice", esc(n).c_str()); EV("duplicates rejected"); return; }
    T("define %lld", v); for (auto &n : ns) T("  name %s", esc(n, 20).c_str());
    { std::vector<std::unique_ptr<HText>> h; for (auto &n : ns) h.push_back(std::make_unique<HText>(n)); auto tv = [&](size_t i) { return TextView(h[i]->view()); }; Lex *r = nullptr;
      switch (rng.below(4)) { case 0: if (ns.size() == 1) { r = &lex->define(typename Lex::Pair{E(v), tv(0)}); break; } [[fallthrough]];
      case 1: if (ns.size() == 2) { std::initializer_list<TextView> il{tv(0), tv(1)}; E e = E(v); r = &lex->define(typename Lex::Definition{e, il}); break; } [[fallthrough]];
      case 2: if (ns.size() == 1) r = &lex->define(E(v), {tv(0)}); else if (ns.size() == 2) r = &lex->define(E(v), {tv(0), tv(1)}); else r = &lex->define(E(v), {tv(0), tv(1), tv(2)}); break;
      default: if (ns.size() == 1) r = &lex->define(E(v), tv(0)); else if (ns.size() == 2) r = &lex->define(E(v), tv(0), std::string_view(tv(1))); else r = &lex->define(E(v), tv(0), tv(1), tv(2)); }
      CHECK(r == lex.get(), "return", "define"); }
    for (auto &n : ns) apply(v, n); EV("definitions");
  }
  void lookup_name(Lex const &l, std::string const &n, char const *w) {
    HText h(n); auto it = names.find(lower(n)); calls = 0; std::optional<I> got; bool threw = false; try { got = I(l[TextView(h.view())]); } catch (std::domain_error const &e) { threw = true; CHECK(std::string_view(e.what()).find("Unknown name") != std::string_view::npos, "exception", "%s", e.what()); }
    EV("name lookups"); if (it != names.end()) { CHECK(got && *got == it->second.first && calls == 0, "name", "%s: %s gives %lld expected %lld", w, esc(n, 40).c_str(), got ? *got : -999, it->second.first); }
    else if (hv) { CHECK(got && I(E(*got)) == I(E(SALT + int(n.size()))) && calls == 1 && h_name == n, "value handler", "%s: %s", w, esc(n, 40).c_str()); }
    else if (dv) CHECK(got && *got == *dv, "default value", "%s: %s gives %lld expected %lld", w, esc(n, 40).c_str(), got ? *got : -999, *dv);
    else CHECK(threw && !got, "unknown name", "%s: %s did not throw", w, esc(n, 40).c_str());
  }
  void lookup_value(Lex const &l, I v, char const *w) {
    auto it = primary.find(v); calls = 0; std::optional<std::string> got; TextView raw; bool threw = false; try { raw = l[E(v)]; got = std::string(raw); } catch (std::domain_error const &) { threw = true; }
    EV("value lookups"); if (it != primary.end()) { CHECK(got && *got == it->second && calls == 0, "value", "%s: %lld gives %s expected %s", w, v, esc(got.value_or("-"), 40).c_str(), esc(it->second, 40).c_str()); CHECK(l[raw] == E(v), "round trip", "%s: %lld", w, v); TextView again = l[l[raw]]; CHECK(again.data() == raw.data() && again.size() == raw.size(), "normalize", "%s: %lld", w, v); }
    else if (hn) CHECK(got && *got == "value " + std::to_string(v) && calls == 1, "name handler", "%s: %lld", w, v);
    else if (dn) CHECK(got && *got == *dn, "default name", "%s: %lld gives %s", w, v, esc(got.value_or("-"), 40).c_str());
    else CHECK(threw && !got, "unknown value", "%s: %lld did not throw", w, v);
  }
  void verify(char const *w) {
    Lex const &l = *lex; CHECK(l.count() == primary.size(), "count", "%s: %zu expected %zu", w, l.count(), primary.size());
    for (auto &n : pool) lookup_name(l, mixcase(rng, n), w); for (I v = -4; v < I(domain) + 2; ++v) if (std::is_signed_v<std::underlying_type_t<E>> || v >= 0) lookup_value(l, v, w);
    { std::vector<std::pair<I, std::string>> fw, bw; for (auto &&[v, n] : l) fw.emplace_back(I(v), std::string(n)); std::map<I, std::string> m; for (auto &p : fw) CHECK(m.insert(p).second, "iterate values", "%s: value %lld twice", w, p.first); CHECK(m == primary, "iterate values", "%s: %zu values expected %zu", w, m.size(), primary.size());
      for (auto it = l.end(); it != l.begin();) { if (rng.flip()) --it; else { auto o = it--; CHECK(o != it && !(o == it), "iterate values", "%s: postfix decrement", w); auto c = it; CHECK(c == it && !(c != it), "iterate values", "%s: copied iterator", w); c = o; CHECK(c == o && ++it == o && it == c, "iterate values", "%s: assigned iterator", w); --it; } bw.emplace_back(I(it->_value), std::string(it->_name)); CHECK(bw.size() <= fw.size(), "iterate values", "%s: backward", w); } std::reverse(bw.begin(), bw.end()); CHECK(bw == fw, "iterate values", "%s: backward iteration differs", w); size_t k = 0; for (auto it = l.begin(); it != l.end(); ++k) { auto o = it++; CHECK(std::string((*o)._name) == fw[k].second && std::get<Lex::NAME_IDX>(*o) == TextView(fw[k].second) && std::get<Lex::VALUE_IDX>(*o) == E(fw[k].first), "iterate values", "%s: postfix increment", w); } }
    { std::vector<std::pair<I, std::string>> fw, bw; std::map<std::string, std::pair<I, std::string>> m; for (auto const &p : l.by_names()) { fw.emplace_back(I(p._value), std::string(p._name)); CHECK(m.insert({lower(p._name), fw.back()}).second, "iterate names", "%s: name %s twice", w, esc(p._name).c_str()); } CHECK(m == names, "iterate names", "%s: %zu names expected %zu", w, m.size(), names.size());
      for (auto it = l.end_names(); it != l.begin_names();) { if (rng.flip()) --it; else { auto o = it--; CHECK(o != it && !(o == it), "iterate names", "%s: postfix decrement", w); auto c = it; CHECK(c == it, "iterate names", "%s: copied iterator", w); c = o; CHECK(c == o && ++it == o && it == c, "iterate names", "%s: assigned iterator", w); --it; } bw.emplace_back(I(it->_value), std::string(it->_name)); CHECK(bw.size() <= fw.size(), "iterate names", "%s: backward", w); } std::reverse(bw.begin(), bw.end()); CHECK(bw == fw, "iterate names", "%s: backward iteration differs", w); size_t k = 0; for (auto it = l.begin_names(); it != l.end_names(); ++k) { auto o = it++; CHECK(std::string(o->_name) == fw[k].second, "iterate names", "%s: postfix increment", w); } CHECK(k == fw.size(), "iterate names", "%s", w); }
    obs(u64(names.size() * 1000 + primary.size())); EV("lexicon verifications");
  }
  void create() {
    // Constructors take references to transient lists.
    HText a("first name"), b("FIRST alias"), c("second"), d("the default"); I v1 = 1, v2 = 2; auto A = TextView(a.view()), B = TextView(b.view()), C = TextView(c.view()), D = TextView(d.view()); bool f = false, s = false, alias = false; unsigned k = unsigned(rng.below(13)); T("construct %u", k);
    switch (k) {
    case 0: lex = std::make_unique<Lex>(); break;
    case 1: lex.reset(new Lex(typename Lex::with_multi{{E(v1), {A, B}}, {E(v2), {C}}})); f = s = alias = true; break;
    case 2: lex.reset(new Lex(typename Lex::with{{E(v1), A}, {E(v2), C}})); f = s = true; break;
    case 3: lex.reset(new Lex(typename Lex::with{{E(v1), A}}, D, E(v2))); f = true; dn = "the default"; dv = v2; break;
    case 4: lex.reset(new Lex(typename Lex::with_multi{{E(v1), {A, B}}}, E(v2), D)); f = alias = true; dn = "the default"; dv = v2; break;
    case 5: lex.reset(new Lex(E(v1))); dv = v1; break;
    case 6: lex.reset(new Lex(D, E(v1))); dv = v1; dn = "the default"; break;
    case 7: lex.reset(new Lex(typename Lex::UnknownNameHandler(fv()), typename Lex::UnknownValueHandler(fn()))); hv = hn = true; break;
    case 8: lex.reset(new Lex(typename Lex::with{{E(v2), C}}, typename Lex::UnknownValueHandler(fn()))); s = true; hn = true; break;
    default: { // every pair of handlers with every form.
      auto gen = [&]() -> typename Lex::Default { using DF = typename Lex::Default; switch (rng.below(5)) { case 0: return DF{}; case 1: { I v = value(); dv = v; hv = false; T("value %lld", v); return DF{E(v)}; } case 2: dn = "the default"; hn = false; T("text"); return DF{D}; case 3: hv = true; dv.reset(); T("value handler"); return DF{typename Lex::UnknownNameHandler(fv())}; default: hn = true; dn.reset(); T("name handler"); return DF{typename Lex::UnknownValueHandler(fn())}; } };
      auto h1 = gen(); auto h2 = gen(); switch (rng.below(3)) { case 0: lex.reset(new Lex(typename Lex::with_multi{{E(v1), {A, B}}, {E(v2), {C}}}, h1, h2)); f = s = alias = true; break; case 1: lex.reset(new Lex(typename Lex::with{{E(v1), A}, {E(v2), C}}, h1, h2)); f = s = true; break; default: lex.reset(new Lex(h1, h2)); break; } EV("constructed with two handlers"); }
    }
    if (f) apply(v1, "first name"); if (alias) apply(v1, "FIRST alias"); if (s) apply(v2, "second"); 
    pool.push_back("first name"); pool.push_back("first alias"); pool.push_back("SECOND"); if (domain < 4) domain = 4;
  }
  void run() {
    create(); verify("constructed"); 
    for (size_t n = rng.below(40); n; --n) { switch (rng.below(12)) { default: define(); break; case 0: case 1: set_default(); break; case 2: { T("move"); auto t = std::make_unique<Lex>(std::move(*lex)); CHECK(lex->count() == 0, "move", "source count %zu", lex->count()); if (rng.flip()) lex.reset(); lex = std::move(t); EV("moves"); break; } case 3: { bool threw = false; try { lex->define(E(value()), std::initializer_list<TextView>{}); } catch (std::invalid_argument const &) { threw = true; } CHECK(threw, "no names", "definition without names accepted"); } } if (n % 4 == 0) verify("after step"); }
    verify("final"); print();
  }
  void print() {
    Lex const &l = *lex; std::string s, names_s, nums, both; for (auto &&[v, n] : l) { if (!both.empty()) { both += ','; names_s += ','; nums += ','; } both += "[" + std::string(n) + "," + std::to_string(unsigned(v)) + "]"; names_s += lower(n); nums += std::to_string(unsigned(v)); }
    obs(both); swoc::bwprint(s, "{}", l); eq_text(s, both, "print", "list"); swoc::bwprint(s, "{:s}", l); eq_text(s, names_s, "print", "names"); swoc::bwprint(s, "{:d}", l); eq_text(s, nums, "print", "values");
  }
};
SUB(scoped_enum, 4000, 100000, LEAK) { Drv<Color> d(rng); d.run(); }
SUB(plain_enum, 4000, 100000, LEAK) { Drv<Plain> d(rng); d.run(); }
SUB(poor_hash, 4000, 100000, LEAK) { Drv<Bad> d(rng); d.run(); }
// Failing multi-name definitions leave everything defined before unchanged.
SUB(partial_failure, 10000, 200000, LEAK) {
  using Lex = swoc::Lexicon<Color>; Lex l; size_t n = 1 + rng.below(12); for (size_t i = 0; i < n; ++i) l.define(Color(int(i)), "name" + std::to_string(i), "alias" + std::to_string(i)); size_t dup = rng.below(n); bool threw = false; T("dup %zu of %zu", dup, n);
  HText nn("brand new"), dd("ALIAS" + std::to_string(dup)); try { l.define(Color(int(rng.below(n + 3))), TextView(nn.view()), TextView(dd.view())); } catch (std::invalid_argument const &) { threw = true; } CHECK(threw, "duplicate", "alias defined twice");
  for (size_t i = 0; i < n; ++i) { auto a = "Name" + std::to_string(i), b = "Alias" + std::to_string(i); CHECK(l[TextView(a)] == Color(int(i)) && l[TextView(b)] == Color(int(i)) && l[Color(int(i))] == TextView("name" + std::to_string(i)), "unchanged", "definition %zu changed by a failed definition", i); } obs(u64(n * 16 + dup)); EV("failed definitions");
}
// Scale: thousands of values and names.
SUB(large, 24, 500, LEAK) {
  using Lex = swoc::Lexicon<Color>; auto lx = std::make_unique<Lex>(); size_t n = 500 + rng.below(rng.chance(1, 4) ? 30000 : 5000); std::map<int, std::string> prim; std::vector<std::pair<std::string, int>> all; T("%zu values", n); u64 salt = rng.below(1000);
  auto nm = [&](size_t i, int k) { std::string s = (k ? "Alias" : "Name") + std::to_string(salt) + "-" + std::to_string(i) + std::string(i % 11 * size_t(k), char('a' + i % 26)); if (i % 500 == 3) s += std::string(5000, 'L'); return s; };
  for (size_t i = 0; i < n; ++i) { int v = int(i * 7) - 900; std::string a = nm(i, 0), b = nm(i, 1); HText ha(a), hb(b); if (i % 3 == 0) { lx->define(Color(v), TextView(ha.view()), TextView(hb.view())); all.emplace_back(a, v); all.emplace_back(b, v); } else { lx->define(Color(v), TextView(ha.view())); all.emplace_back(a, v); } prim[v] = a; if (rng.chance(1, 2000)) { auto t = std::make_unique<Lex>(std::move(*lx)); lx = std::move(t); } }
  Lex const &l = *lx; CHECK(l.count() == n, "count", "%zu expected %zu", l.count(), n);
  for (auto &[s, v] : all) { std::string q = rng.flip() ? s : mixcase(rng, s); HText h(q); CHECK(l[TextView(h.view())] == Color(v), "name", "%s", esc(q, 60).c_str()); EV("name lookups"); } for (auto &[v, s] : prim) { CHECK(l[Color(v)] == TextView(s), "value", "%d", v); EV("value lookups"); }
  for (int k = 0; k < 200; ++k) { size_t i = rng.below(n + 50); bool two = i < n && i % 3 == 0; std::string q = nm(i, 1); bool threw = false; if (two) continue; try { (void)l[TextView(q)]; } catch (std::domain_error const &) { threw = true; } CHECK(threw, "unknown name", "%s did not throw", esc(q, 60).c_str()); threw = false; int v = int(rng.below(n * 7)) - 900; if (prim.count(v)) continue; try { (void)l[Color(v)]; } catch (std::domain_error const &) { threw = true; } CHECK(threw, "unknown value", "%d did not throw", v); }
  std::set<int> sv; for (auto &&[v, s] : l) { CHECK(sv.insert(int(v)).second && prim.count(int(v)) && TextView(prim[int(v)]) == s, "iterate values", "value %d", int(v)); } CHECK(sv.size() == n, "iterate values", "%zu of %zu", sv.size(), n);
  std::set<std::string> sn; for (auto const &p : l.by_names()) CHECK(sn.insert(lower(p._name)).second, "iterate names", "%s twice", esc(p._name, 60).c_str()); CHECK(sn.size() == all.size(), "iterate names", "%zu of %zu", sn.size(), all.size()); size_t c = 0; for (auto it = l.end(); it != l.begin(); ++c) --it; CHECK(c == n, "iterate values", "backward %zu of %zu", c, n);
  { size_t i = rng.below(all.size()); std::string d = mixcase(rng, all[i].first); bool threw = false; try { lx->define(Color(-5000), TextView(d)); } catch (std::invalid_argument const &) { threw = true; } CHECK(threw && l.count() == n, "duplicate", "%s", esc(d, 60).c_str()); } obs(u64(n)); EV("large lexicons");
}
