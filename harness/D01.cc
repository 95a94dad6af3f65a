// D01: the intrusive list behaves as a doubly linked sequence.
#include "vh.h"
#include "swoc/IntrusiveDList.h"
#include <algorithm>
#include <iterator>
using namespace vh;

// Elements with the various supported ways of describing links.
struct Plain { int id = 0; Plain *_next = nullptr, *_prev = nullptr; struct Linkage { static Plain *&next_ptr(Plain *p) { return p->_next; } static Plain *&prev_ptr(Plain *p) { return p->_prev; } }; };
struct Tmpl { Tmpl *n = nullptr; int id = 0; Tmpl *p = nullptr; using Linkage = swoc::IntrusiveLinkage<Tmpl, &Tmpl::n, &Tmpl::p>; };
struct Base { Base *n = nullptr, *p = nullptr; virtual ~Base() {} };
struct Derived : Base { int id = 0; using Linkage = swoc::IntrusiveLinkageRebind<Derived, swoc::IntrusiveLinkage<Base, &Base::n, &Base::p>>; };
struct Embedded { int id = 0; swoc::IntrusiveLinks<Embedded> links; using Linkage = swoc::IntrusiveLinkDescriptor<Embedded, &Embedded::links>; };
// Two independent link sets in one element.
struct Dual { int id = 0; Dual *n1 = nullptr, *p1 = nullptr, *n2 = nullptr, *p2 = nullptr; using Linkage = swoc::IntrusiveLinkage<Dual, &Dual::n1, &Dual::p1>; using Linkage2 = swoc::IntrusiveLinkage<Dual, &Dual::n2, &Dual::p2>; };

template <class E> struct Drv {
  using L = typename E::Linkage; using List = swoc::IntrusiveDList<L>; using Seq = std::vector<E *>;
  Rng &rng; static constexpr unsigned NL = 4; List list[NL]; Seq seq[NL]; std::vector<std::unique_ptr<E>> own; Seq free_; std::vector<E *> loose; // loose: free with unspecified links.
  explicit Drv(Rng &r) : rng(r) { size_t n = rng.chance(1, 4) ? 1 + rng.below(4) : 4 + rng.below(40); for (size_t i = 0; i < n; ++i) { own.emplace_back(new E); own.back()->id = int(i); free_.push_back(own.back().get()); } }
  static void linked(List const &l, Seq const &s, char const *w) {
    auto &ml = const_cast<List &>(l);
    CHECK(l.count() == s.size() && l.empty() == s.empty(), "count", "%s: count %zu empty %d expected %zu", w, l.count(), l.empty(), s.size());
    CHECK(l.head() == (s.empty() ? nullptr : s.front()) && l.tail() == (s.empty() ? nullptr : s.back()) && ml.head() == l.head() && ml.tail() == l.tail(), "ends", "%s: head or tail", w);
    // Links read directly, before trusting any iteration.
    for (size_t i = 0; i < s.size(); ++i) { CHECK(L::prev_ptr(s[i]) == (i ? s[i - 1] : nullptr), "links", "%s: prev of %zu/%zu", w, i, s.size()); CHECK(L::next_ptr(s[i]) == (i + 1 < s.size() ? s[i + 1] : nullptr), "links", "%s: next of %zu/%zu", w, i, s.size()); }
    size_t i = 0; for (auto const &e : l) { CHECK(i < s.size() && &e == s[i], "forward", "%s: element %zu", w, i); ++i; } CHECK(i == s.size(), "forward", "%s: %zu elements of %zu", w, i, s.size());
    i = 0; for (auto &e : ml) { CHECK(i < s.size() && &e == s[i], "forward", "%s: mutable element %zu", w, i); ++i; } CHECK(i == s.size(), "forward", "%s: %zu elements of %zu", w, i, s.size());
    auto it = ml.end(); auto ci = l.end(); for (i = s.size(); i-- > 0;) { CHECK(it.has_prev() && it.has_predecessor() && ci.has_prev(), "has_prev", "%s: at %zu", w, i + 1); CHECK(it.has_next() == (i + 1 < s.size()) && it.has_successor() == (i + 2 < s.size()), "has_next", "%s: at %zu", w, i + 1); --it; --ci; CHECK(&*it == s[i] && &*ci == s[i] && it.operator->() == s[i] && static_cast<E *>(it) == s[i], "backward", "%s: element %zu", w, i); }
    CHECK(it == ml.begin() && ci == l.begin() && !it.has_prev() && !ci.has_predecessor(), "backward", "%s: does not end at begin", w);
    CHECK((l.begin() == l.end()) == s.empty(), "ends", "%s: begin and end", w);
  }
  void verify(char const *w) {
    for (unsigned k = 0; k < NL; ++k) linked(list[k], seq[k], w);
    for (auto e : free_) CHECK(!L::next_ptr(e) && !L::prev_ptr(e), "unlinked", "%s: removed element %d still has links", w, e->id);
    for (size_t i = 0; i < own.size(); ++i) CHECK(own[i]->id == int(i), "payload", "%s: payload of %zu changed", w, i);
    EV("list verifications"); u64 h = 7; for (auto &s : seq) { h = h * 1099511628211ull + 99; for (auto e : s) h = h * 1099511628211ull + u64(e->id); } obs(h);
  }
  E *fresh() { if (!loose.empty() && rng.flip()) { auto e = loose.back(); loose.pop_back(); return e; } if (free_.empty()) return nullptr; auto i = rng.below(free_.size()); auto e = free_[i]; free_[i] = free_.back(); free_.pop_back(); return e; }
  void step() {
    unsigned k = unsigned(rng.below(NL)), j = unsigned(rng.below(NL)); auto &l = list[k]; auto &s = seq[k]; size_t n = s.size(), at = n ? rng.below(n) : 0; if (n && rng.chance(1, 3)) at = rng.flip() ? 0 : n - 1;
    unsigned op = unsigned(rng.below(27)); EV("list operations");
    switch (op) {
    case 0: case 1: if (auto e = fresh()) { T("%u prepend %d", k, e->id); CHECK(&l.prepend(e) == &l, "return", "prepend"); s.insert(s.begin(), e); } break;
    case 2: case 3: case 4: if (auto e = fresh()) { T("%u append %d", k, e->id); CHECK(&l.append(e) == &l, "return", "append"); s.push_back(e); } break;
    case 5: { T("%u take_head", k); auto e = l.take_head(); CHECK(e == (n ? s.front() : nullptr), "take", "take_head"); if (n) { s.erase(s.begin()); free_.push_back(e); } break; }
    case 6: { T("%u take_tail", k); auto e = l.take_tail(); CHECK(e == (n ? s.back() : nullptr), "take", "take_tail"); if (n) { s.pop_back(); free_.push_back(e); } break; }
    case 7: if (auto e = fresh()) { if (n) { T("%u insert_after %zu/%zu", k, at, n); if (rng.flip()) l.insert_after(s[at], e); else l.insert_after(l.iterator_for(s[at]), e); s.insert(s.begin() + at + 1, e); } else { T("%u insert_after end", k); l.insert_after(l.end(), e); s.push_back(e); } } break;
    case 8: if (auto e = fresh()) { if (n) { T("%u insert_before %zu/%zu", k, at, n); if (rng.flip()) l.insert_before(s[at], e); else l.insert_before(l.iterator_for(s[at]), e); s.insert(s.begin() + at, e); } else { T("%u insert_before end", k); l.insert_before(l.end(), e); s.push_back(e); } } break;
    case 9: if (auto e = fresh()) { T("%u insert at end, %zu", k, n); if (rng.flip()) l.insert_before(l.end(), e); else l.insert_after(l.end(), e); s.push_back(e); } break;
    case 10: if (n) { T("%u erase %zu/%zu", k, at, n); auto e = s[at]; auto nx = at + 1 < n ? s[at + 1] : nullptr; if (rng.flip()) CHECK(l.erase(e) == nx, "erase return", "element"); else { auto r = l.erase(l.iterator_for(e)); CHECK(static_cast<E *>(r) == nx && (r == l.end()) == !nx, "erase return", "iterator"); if (at > 0) { --r; CHECK(&*r == s[at - 1], "erase return", "iterator does not decrement"); } } s.erase(s.begin() + at); free_.push_back(e); } break;
    case 11: { size_t a = rng.below(n + 1), b = a + rng.below(n - a + 1); if (rng.chance(1, 4)) b = n; if (rng.chance(1, 6)) a = 0; T("%u erase range %zu..%zu of %zu", k, a, b, n); auto first = a < n ? l.iterator_for(s[a]) : l.end(), last = b < n ? l.iterator_for(s[b]) : l.end(); auto r = l.erase(first, last); CHECK(r == last, "erase return", "range"); if (r == l.end() && a > 0) { --r; CHECK(&*r == s[a - 1], "erase return", "range iterator does not decrement"); } free_.insert(free_.end(), s.begin() + a, s.begin() + b); s.erase(s.begin() + a, s.begin() + b); EV("range erases"); break; }
    case 12: { unsigned x = unsigned(rng.below(n + 3)); T("%u nth %u", k, x); auto it = l.nth(x); if (x < n) CHECK(&*it == s[x], "nth", "%u of %zu", x, n); else CHECK(static_cast<E *>(it) == nullptr && it == l.end(), "nth", "%u of %zu is not empty", x, n); break; }
    case 13: case 14: case 15: case 16: { // partial list transfer
      unsigned x = unsigned(rng.below(n + 3)); bool suffix = op & 1, split = op >= 15; T("%u %s_%s %u of %zu", k, split ? "split" : "take", suffix ? "suffix" : "prefix", x, n);
      List t{suffix ? (split ? l.split_suffix(x) : l.take_suffix(x)) : (split ? l.split_prefix(x) : l.take_prefix(x))};
      Seq ts; size_t c = x > n ? (split ? 0 : n) : x; if (suffix) { ts.assign(s.end() - c, s.end()); s.erase(s.end() - c, s.end()); } else { ts.assign(s.begin(), s.begin() + c); s.erase(s.begin(), s.begin() + c); }
      linked(t, ts, "transferred"); linked(l, s, "remaining"); EV("partial transfers"); auto &d = list[j]; auto &ds = seq[j];
      switch (rng.below(5)) {
      case 0: if (ds.empty()) { d = std::move(t); ds = ts; T("to %u by move", j); } else { d.append(t); ds.insert(ds.end(), ts.begin(), ts.end()); T("append to %u", j); } break;
      case 1: d.prepend(t); ds.insert(ds.begin(), ts.begin(), ts.end()); T("prepend to %u", j); break;
      case 2: if (!ds.empty()) { auto y = rng.below(ds.size()); T("insert_after %u %zu", j, size_t(y)); if (rng.flip()) d.insert_after(ds[y], t); else d.insert_after(d.iterator_for(ds[y]), t); ds.insert(ds.begin() + y + 1, ts.begin(), ts.end()); break; } d.append(t); ds = ts; break;
      case 3: if (!ds.empty()) { auto y = rng.below(ds.size()); T("insert_before %u %zu", j, size_t(y)); if (rng.flip()) d.insert_before(ds[y], t); else d.insert_before(d.iterator_for(ds[y]), t); ds.insert(ds.begin() + y, ts.begin(), ts.end()); break; } d.append(t); ds = ts; break;
      default: d.append(t); ds.insert(ds.end(), ts.begin(), ts.end()); T("append to %u", j);
      }
      linked(t, {}, "source of splice"); break; }
    case 17: if (j != k) { T("append %u to %u", j, k); l.append(list[j]); s.insert(s.end(), seq[j].begin(), seq[j].end()); seq[j].clear(); EV("splices"); } break;
    case 18: if (j != k) { T("prepend %u to %u", j, k); l.prepend(list[j]); s.insert(s.begin(), seq[j].begin(), seq[j].end()); seq[j].clear(); EV("splices"); } break;
    case 19: if (j != k && n) { T("insert %u after %zu/%zu of %u", j, at, n, k); if (rng.flip()) l.insert_after(s[at], list[j]); else l.insert_after(l.iterator_for(s[at]), list[j]); s.insert(s.begin() + at + 1, seq[j].begin(), seq[j].end()); seq[j].clear(); EV("splices"); } break;
    case 20: if (j != k && n) { T("insert %u before %zu/%zu of %u", j, at, n, k); if (rng.flip()) l.insert_before(s[at], list[j]); else l.insert_before(l.iterator_for(s[at]), list[j]); s.insert(s.begin() + at, seq[j].begin(), seq[j].end()); seq[j].clear(); EV("splices"); } break;
    case 21: if (rng.chance(1, 3)) { T("%u clear", k); CHECK(&l.clear() == &l, "return", "clear"); loose.insert(loose.end(), s.begin(), s.end()); s.clear(); } break;
    case 22: if (j != k) { if (rng.flip()) { T("%u move assign from %u", k, j); l = std::move(list[j]); loose.insert(loose.end(), s.begin(), s.end()); s = seq[j]; seq[j].clear(); } else { T("%u move construct", j); List t(std::move(list[j])); linked(t, seq[j], "move constructed"); linked(list[j], {}, "moved from"); list[j] = std::move(t); linked(t, {}, "moved from"); } } else { auto &self = list[j]; T("%u self move", k); l = std::move(self); } break;
    case 23: { // apply, removing some of the elements and destroying others.
      T("%u apply", k); size_t i = 0; Seq keep; auto old = s; 
      auto fp = [&](E *e) { CHECK(i < old.size() && e == old[i], "apply", "element %zu", i); ++i; if (rng.chance(1, 3)) { l.erase(e); free_.push_back(e); } else if (rng.chance(1, 4)) { l.erase(e); auto id = e->id; delete own[size_t(id)].release(); own[size_t(id)].reset(new E); own[size_t(id)]->id = id; free_.push_back(own[size_t(id)].get()); } else keep.push_back(e); };
      if (rng.flip()) l.apply(fp); else l.apply([&](E &e) { fp(&e); });
      CHECK(i == n, "apply", "%zu of %zu elements", i, n); s = keep; EV("apply"); break; }
    case 24: { E *e = own[rng.below(own.size())].get(); CHECK(l.contains(e) == (std::find(s.begin(), s.end(), e) != s.end()), "contains", "element %d", e->id); T("%u contains", k); break; }
    case 25: { // standard algorithms over the list.
      auto cnt = size_t(std::distance(l.begin(), l.end())); CHECK(cnt == n, "distance", "%zu of %zu", cnt, n); if (n) { auto it = std::find_if(l.begin(), l.end(), [&](E &e) { return &e == s[at]; }); CHECK(static_cast<E *>(it) == s[at] && size_t(std::distance(l.begin(), it)) == at, "find_if", "%zu", at); auto nx = std::next(it); CHECK(nx == (at + 1 < n ? l.iterator_for(s[at + 1]) : l.end()), "next", "%zu", at); auto post = it++; CHECK(&*post == s[at] && it == nx, "postfix", "++ at %zu", at); auto back = it--; CHECK(back == nx && &*it == s[at], "postfix", "-- at %zu", at); typename List::const_iterator ci = it; CHECK(&*ci == s[at] && ci == it, "const", "conversion"); auto cp = ci++; CHECK(&*cp == s[at], "postfix", "const ++"); CHECK(ci == nx, "postfix", "const ++ moved"); cp = ci--; CHECK(&*ci == s[at] && cp == nx, "postfix", "const --"); List const &c = l; CHECK(&*c.iterator_for(s[at]) == s[at], "const", "iterator_for"); } break; }
    default: if (n) { T("%u rotate", k); if (rng.flip()) { l.append(l.take_head()); std::rotate(s.begin(), s.begin() + 1, s.end()); } else { l.prepend(l.take_tail()); std::rotate(s.begin(), s.end() - 1, s.end()); } } break;
    }
  }
  void run(size_t steps) { for (size_t i = 0; i < steps; ++i) { step(); verify("after step"); } }
};
template <class E> static void go(Rng &rng) { Drv<E> d(rng); d.run(rng.chance(1, 8) ? 150 : 10 + rng.below(50)); }
SUB(plain, 150000, 3000000, LEAK) { go<Plain>(rng); }
SUB(linkage_template, 60000, 1500000, LEAK) { go<Tmpl>(rng); }
SUB(rebound, 60000, 1500000, LEAK) { go<Derived>(rng); }
SUB(embedded, 60000, 1500000, LEAK) { go<Embedded>(rng); }
// An element in two lists via distinct links: neither disturbs the other.
SUB(two_link_sets, 60000, 1500000, LEAK) {
  Drv<Dual> d(rng); swoc::IntrusiveDList<Dual::Linkage2> other; std::vector<Dual *> order; for (auto &p : d.own) { if (rng.flip()) { other.append(p.get()); order.push_back(p.get()); } else { other.prepend(p.get()); order.insert(order.begin(), p.get()); } }
  auto check = [&] { size_t i = 0; for (auto &e : other) { CHECK(i < order.size() && &e == order[i], "independent", "element %zu of the second list", i); ++i; } CHECK(i == order.size() && other.count() == i, "independent", "second list has %zu elements", i); };
  for (size_t n = 5 + rng.below(40); n; --n) { unsigned op = unsigned(rng.below(4)); if (op == 0 && !order.empty()) { auto i = rng.below(order.size()); T("second erase %zu", size_t(i)); other.erase(order[i]); CHECK(!order[i]->n2 && !order[i]->p2, "unlinked", "second list"); order.erase(order.begin() + i); } else { // apply could destroy elements of the second list, so is excluded here.
      Rng save = rng; (void)save; size_t k = rng.below(Drv<Dual>::NL); auto &l = d.list[k]; auto &s = d.seq[k]; if (auto e = rng.flip() ? d.fresh() : nullptr) { T("first append"); l.append(e); s.push_back(e); } else if (!s.empty()) { T("first erase"); auto i = rng.below(s.size()); auto x = s[i]; l.erase(x); s.erase(s.begin() + i); d.free_.push_back(x); } } d.verify("first"); check(); }
}
// Every short history over two lists with up to three elements, enumerated.
SUB(enumerated, 8 * 8 * 8 * 8 * 8, 8 * 8 * 8 * 8 * 8 * 8, vh::EXHAUSTIVE) {
  (void)rng; using List = swoc::IntrusiveDList<Plain::Linkage>; Plain e[4]; List l[2]; std::vector<Plain *> s[2]; u64 x = S().idx; unsigned nx = 0; size_t depth = vh::thorough() ? 6 : 5;
  for (size_t d = 0; d < depth; ++d, x /= 8) { unsigned op = unsigned(x % 8); T("op %u", op);
    auto add = [&]() -> Plain * { return nx < 4 ? &e[nx++] : nullptr; };
    switch (op) {
    case 0: if (auto p = add()) { l[0].append(p); s[0].push_back(p); } break;
    case 1: if (auto p = add()) { l[1].prepend(p); s[1].insert(s[1].begin(), p); } break;
    case 2: if (!s[0].empty()) { auto p = add(); if (p) { l[0].insert_after(s[0].front(), p); s[0].insert(s[0].begin() + 1, p); } } break;
    case 3: if (!s[1].empty()) { if (auto p = add()) { l[1].insert_before(s[1].back(), p); s[1].insert(s[1].end() - 1, p); } } break;
    case 4: if (!s[1].empty()) { l[1].insert_before(s[1].back(), l[0]); s[1].insert(s[1].end() - 1, s[0].begin(), s[0].end()); s[0].clear(); } break;
    case 5: { auto t = l[1].take_suffix(1); if (!s[1].empty()) { s[0].insert(s[0].begin(), s[1].back()); s[1].pop_back(); } l[0].prepend(t); break; }
    case 6: if (!s[0].empty()) { auto i = s[0].size() / 2; l[0].erase(s[0][i]); s[0].erase(s[0].begin() + i); } break;
    default: if (!s[0].empty()) { l[0].insert_after(s[0].front(), l[1]); s[0].insert(s[0].begin() + 1, s[1].begin(), s[1].end()); s[1].clear(); } break;
    }
    Drv<Plain>::linked(l[0], s[0], "list 0"); Drv<Plain>::linked(l[1], s[1], "list 1"); }
  EV("enumerated histories");
}
// Scale: tens of thousands of elements, whole list and half list transfers.
SUB(large, 40, 800, LEAK) {
  Drv<Plain> d(rng); size_t n = 2000 + rng.below(rng.chance(1, 4) ? 120000 : 20000); std::vector<std::unique_ptr<Plain>> own; for (size_t i = 0; i < n; ++i) { own.emplace_back(new Plain); own.back()->id = int(i); } auto &l = d.list[0]; auto &m = d.list[1]; Drv<Plain>::Seq s, t; T("%zu elements", n);
  for (auto &p : own) { switch (rng.below(8)) { case 0: l.prepend(p.get()); break; default: l.append(p.get()); } } { Drv<Plain>::Seq front, back; (void)front; (void)back; } for (auto &e : l) s.push_back(&e); CHECK(s.size() == n, "forward", "%zu of %zu", s.size(), n); Drv<Plain>::linked(l, s, "built");
  for (int k = 0; k < 6; ++k) {
    size_t c = rng.below(s.size() + 1); T("step %d at %zu of %zu", k, c, s.size());
    switch (rng.below(7)) {
    case 0: { auto x = rng.flip() ? l.take_prefix(unsigned(c)) : l.split_prefix(unsigned(c)); m.append(x); t.insert(t.end(), s.begin(), s.begin() + c); s.erase(s.begin(), s.begin() + c); break; }
    case 1: { auto x = rng.flip() ? l.take_suffix(unsigned(c)) : l.split_suffix(unsigned(c)); m.prepend(x); t.insert(t.begin(), s.end() - c, s.end()); s.resize(s.size() - c); break; }
    case 2: l.append(m); s.insert(s.end(), t.begin(), t.end()); t.clear(); break;
    case 3: if (!s.empty()) { size_t i = std::min(c, s.size() - 1); l.insert_after(s[i], m); s.insert(s.begin() + i + 1, t.begin(), t.end()); t.clear(); } break;
    case 4: { size_t b = c + rng.below(s.size() - c + 1); auto f = c < s.size() ? l.iterator_for(s[c]) : l.end(), e = b < s.size() ? l.iterator_for(s[b]) : l.end(); l.erase(f, e); for (size_t i = c; i < b; ++i) CHECK(!s[i]->_next && !s[i]->_prev, "unlinked", "erased element %zu", i); s.erase(s.begin() + c, s.begin() + b); break; }
    case 5: { Drv<Plain>::Seq keep; size_t i = 0; l.apply([&](Plain *e) { CHECK(i < s.size() && e == s[i], "apply", "element %zu", i); ++i; if (i % 3 == 0) l.erase(e); else keep.push_back(e); }); CHECK(i == s.size(), "apply", "%zu of %zu", i, s.size()); s = keep; break; }
    default: { auto it = l.nth(unsigned(c)); CHECK(static_cast<Plain *>(it) == (c < s.size() ? s[c] : nullptr), "nth", "%zu of %zu", c, s.size()); std::swap(s, t); swoc::IntrusiveDList<Plain::Linkage> x(std::move(l)); l = std::move(m); m = std::move(x); } }
    Drv<Plain>::linked(l, s, "large"); Drv<Plain>::linked(m, t, "large other"); obs(u64(s.size() * 7 + t.size()));
  }
  l.clear(); m.clear(); EV("large lists");
}
