// D02: the intrusive hash map finds exactly its elements through any history.
#include "vh.h"
#include "swoc/IntrusiveHashMap.h"
#include <algorithm>
#include <map>
#include <optional>
#include <set>
using namespace vh;

// Hash functions of varying quality, selected per case.
static unsigned g_hash = 0;
static u64 hash_of(u64 k) { switch (g_hash) { case 0: return k; case 1: return k * 0x9E3779B97F4A7C15ull >> 17; case 2: return 5; case 3: return k % 3; case 4: return k / 4; case 5: return k << 8; case 6: return ~u64(0) - k % 5; default: return (k % 7) * 13 * 31; } }
struct Elt { u64 key; int id; Elt *_next = nullptr, *_prev = nullptr; bool in = false; };
struct Desc { static u64 key_of(Elt const *e) { return e->key; } static bool equal(u64 a, u64 b) { return a == b; } static u64 hash_of(u64 k) { return ::hash_of(k); } static Elt *&next_ptr(Elt *e) { return e->_next; } static Elt *&prev_ptr(Elt *e) { return e->_prev; } };
// Text keys ignoring case, signed small hash type.
struct SElt { std::string key; int id; SElt *_next = nullptr, *_prev = nullptr; bool in = false; };
struct SDesc { static std::string_view key_of(SElt const *e) { return e->key; } static bool equal(std::string_view a, std::string_view b) { return a.size() == b.size() && 0 == strncasecmp(a.data(), b.data(), a.size()); } static unsigned char hash_of(std::string_view s) { unsigned h = g_hash; for (char c : s) h = h * 31 + unsigned(tolower(c)); return (unsigned char)(g_hash > 4 ? h % 3 : h); } static SElt *&next_ptr(SElt *e) { return e->_next; } static SElt *&prev_ptr(SElt *e) { return e->_prev; } };

template <class E, class D> struct Drv {
  using Map = swoc::IntrusiveHashMap<D>; using Key = typename Map::key_type; Rng &rng; std::optional<Map> m; std::map<int, E *> live; std::vector<std::unique_ptr<E>> own; size_t keys; typename Map::ExpansionPolicy pol = Map::AVERAGE; size_t lim = Map::DEFAULT_EXPANSION_LIMIT; bool stable = true; // stable: no policy change since the last insert
  Drv(Rng &r, size_t nk) : rng(r), keys(nk) { if (rng.flip()) m.emplace(); else { size_t n = rng.chance(1, 8) ? 0 : 1 + rng.below(rng.chance(1, 4) ? 600 : 20); m.emplace(n); CHECK(m->bucket_count() >= n, "buckets", "%zu buckets for %zu", m->bucket_count(), n); T("buckets %zu", n); }
    CHECK(m->get_expansion_policy() == Map::DEFAULT_EXPANSION_POLICY && m->get_expansion_limit() == Map::DEFAULT_EXPANSION_LIMIT, "policy", "default policy"); }
  static void setkey(Elt &e, u64 v) { e.key = v; } static void setkey(SElt &e, u64 v) { e.key = "k" + std::to_string(v); if (v % 2) e.key = std::string(rand_case(e.key)); }
  static std::string rand_case(std::string s) { s[0] = 'K'; return s; }
  static u64 probe(Elt &, u64 v) { return v; } static std::string_view probe(SElt &tmp, u64 v) { tmp.key = (v % 3 ? "k" : "K") + std::to_string(v); return tmp.key; }
  size_t bucket(Key k) { return size_t(D::hash_of(k)) % m->bucket_count(); }
  void verify(char const *w) {
    auto const &c = *m; CHECK(c.count() == live.size(), "count", "%s: count %zu expected %zu", w, c.count(), live.size());
    std::vector<E *> order; std::set<int> seen; for (auto &e : *m) { CHECK(live.count(e.id) && live[e.id] == &e, "iterate", "%s: iterated element %d is not in the map", w, e.id); CHECK(seen.insert(e.id).second, "iterate", "%s: element %d twice", w, e.id); order.push_back(&e); CHECK(order.size() <= live.size(), "iterate", "%s: endless", w); }
    CHECK(order.size() == live.size(), "iterate", "%s: iterated %zu of %zu", w, order.size(), live.size());
    size_t i = 0; for (auto const &e : c) CHECK(i < order.size() && &e == order[i++], "iterate", "%s: const iteration differs", w); CHECK(i == order.size(), "iterate", "%s: const iteration", w);
    auto it = m->end(); auto ci = c.end(); for (i = order.size(); i-- > 0;) { --it; --ci; CHECK(&*it == order[i] && &*ci == order[i], "backward", "%s: element %zu", w, i); } CHECK(it == m->begin() && ci == c.begin(), "backward", "%s: begin", w);
    // equal keys are adjacent
    std::vector<std::pair<size_t, size_t>> runs; for (i = 0; i < order.size();) { size_t j = i + 1; while (j < order.size() && D::equal(D::key_of(order[i]), D::key_of(order[j]))) ++j; for (size_t k = j; k < order.size(); ++k) CHECK(!D::equal(D::key_of(order[i]), D::key_of(order[k])), "adjacent", "%s: elements %zu and %zu are equal and not adjacent", w, i, k); runs.push_back({i, j}); i = j; if (order.size() > 60) break; }
    for (auto [a, b] : runs) { auto k = D::key_of(order[a]); auto f = m->find(k); CHECK(static_cast<E *>(f) != nullptr && D::equal(D::key_of(&*f), k), "find", "%s: key of present element not found", w); auto r = m->equal_range(k); CHECK(r.begin() == m->iterator_for(order[a]) && static_cast<E *>(r.end()) == (b < order.size() ? order[b] : nullptr), "equal_range", "%s: range of %zu", w, a); auto cr = c.equal_range(k); size_t n = 0; for (auto &e : cr) { (void)e; ++n; } CHECK(n == b - a && cr.first == c.iterator_for(order[a]), "equal_range", "%s: const range", w); typename Map::const_range conv(r); CHECK(conv.first == cr.first && conv.second == cr.second, "equal_range", "%s: conversion", w); }
    E tmp{}; for (u64 v = 0; v < keys + 2; ++v) { auto k = probe(tmp, v); size_t n = 0; for (auto e : order) n += D::equal(D::key_of(e), k); auto f = m->find(k); auto cf = c.find(k); CHECK((f != m->end()) == (n > 0) && (cf != c.end()) == (n > 0), "find", "%s: key %llu present %zu times, found %d", w, (unsigned long long)v, n, f != m->end()); if (n) CHECK(D::equal(D::key_of(&*f), k) && live.count(f->id) && &*cf == &*f, "find", "%s: wrong element", w); auto r = m->equal_range(k); CHECK(size_t(std::distance(r.first, r.second)) == n, "equal_range", "%s: %zu expected %zu", w, size_t(std::distance(r.first, r.second)), n); }
    for (auto &p : own) { auto f = m->find(p.get()); auto cf = c.find(const_cast<E const *>(p.get())); CHECK((f != m->end()) == p->in && (cf != c.end()) == p->in, "find value", "%s: element %d in map %d", w, p->id, p->in); if (p->in) CHECK(&*f == p.get(), "find value", "%s", w); }
    EV("map verifications"); obs(u64(live.size() * 1000003 + c.bucket_count() * 131 + runs.size()));
  }
  void insert(E *e) {
    if (pol == Map::MAXIMUM && m->bucket_count() > 3000) { pol = Map::MANUAL; m->set_expansion_policy(pol); } // a poor hash would otherwise double the table on every insert
    size_t before = m->bucket_count(), sz = live.size(); m->insert(e); e->in = true; live[e->id] = e; size_t after = m->bucket_count(); (void)sz; if (before == 0) { CHECK(after > 0, "buckets", "no buckets after an insert"); before = after; EV("first insert without buckets"); } CHECK(after >= before, "expansion", "shrunk");
    // expansion policy: computed with the buckets before the insert.
    size_t b = size_t(D::hash_of(D::key_of(e))) % before, chain = 0; bool mixed = false; for (auto &kv : live) if (size_t(D::hash_of(D::key_of(kv.second))) % before == b) { ++chain; if (!D::equal(D::key_of(kv.second), D::key_of(e))) mixed = true; }
    bool want = pol == Map::AVERAGE ? live.size() / before > lim : pol == Map::MAXIMUM ? chain > lim && mixed : false;
    CHECK((after > before) == want, "expansion", "policy %d limit %zu: %zu elements, chain %zu mixed %d, buckets %zu -> %zu", int(pol), lim, live.size(), chain, mixed, before, after); if (want) EV("automatic expansions"); EV("inserts");
  }
  E *pick(bool in) { std::vector<E *> v; for (auto &p : own) if (p->in == in) v.push_back(p.get()); return v.empty() ? nullptr : v[rng.below(v.size())]; }
  void gone(E *e) { live.erase(e->id); e->in = false; if (rng.chance(1, 3)) { setkey(*e, rng.below(keys)); } }
  void step() {
    switch (rng.below(20)) {
    default: { E *e = pick(false); if (!e || rng.flip()) { if (own.size() < 160) { own.emplace_back(new E{}); e = own.back().get(); e->id = int(own.size()); setkey(*e, rng.below(keys)); } } if (e) { T("insert %d", e->id); insert(e); } break; }
    case 0: case 1: if (auto e = pick(true)) { T("erase value %d", e->id); CHECK(m->erase(e), "erase", "present element reported absent"); CHECK(!e->_next && !e->_prev, "erase", "links remain"); gone(e); } break;
    case 2: if (auto e = pick(false)) { T("erase absent %d", e->id); CHECK(!m->erase(e), "erase", "absent element reported present"); } break;
    case 3: case 4: case 5: if (auto e = pick(true)) { auto it = m->find(e); auto nx = std::next(it); E *np = nx; T("erase iterator %d", e->id); auto r = m->erase(it); CHECK(static_cast<E *>(r) == np, "erase", "returned iterator"); if (r == m->end() && live.size() > 1) { --r; CHECK(live.count(r->id), "erase", "returned iterator does not decrement"); } gone(e); } break;
    case 6: { auto n = live.size(); if (!n) break; auto a = rng.below(n + 1), b = a + rng.below(std::min<u64>(n - a + 1, rng.chance(1, 4) ? 200 : 12)); auto f = std::next(m->begin(), long(a)), l = std::next(m->begin(), long(b)); std::vector<E *> es; for (auto x = f; x != l; ++x) es.push_back(&*x); T("erase range %zu..%zu of %zu", size_t(a), size_t(b), n); auto r = m->erase(f, l); CHECK(r == l, "erase", "returned iterator"); for (auto e : es) gone(e); EV("range erases"); break; }
    case 7: { E tmp{}; auto k = probe(tmp, rng.below(keys)); auto r = m->equal_range(k); std::vector<E *> es; for (auto &e : r) es.push_back(&e); E *after = r.second; T("erase equal range of %zu", es.size()); auto x = m->erase(r); CHECK(static_cast<E *>(x) == after, "erase", "returned iterator"); for (auto e : es) gone(e); CHECK(m->find(k) == m->end(), "erase", "key found after erasing its range"); EV("range erases"); break; }
    case 8: if (m->bucket_count() < 5000 && rng.chance(1, 3)) { auto b = m->bucket_count(); T("expand"); m->expand(); CHECK(m->bucket_count() > b && m->get_expansion_policy() == pol, "expansion", "explicit: %zu -> %zu", b, m->bucket_count()); EV("explicit expansions"); } break;
    case 9: if (rng.chance(1, 8)) { T("clear"); CHECK(&m->clear() == &*m, "return", "clear"); for (auto &kv : live) kv.second->in = false; live.clear(); } break;
    case 10: if (rng.chance(1, 4)) { T("move"); Map t(std::move(*m)); CHECK(t.count() == live.size() && m->count() == 0, "move", "count"); if (rng.flip()) { E x{}; x.id = -1; setkey(x, rng.below(keys)); CHECK(m->find(&x) == m->end() && m->find(D::key_of(&x)) == m->end() && !m->erase(&x) && m->begin() == m->end(), "move", "source finds an element"); m->insert(&x); CHECK(m->count() == 1 && &*m->find(D::key_of(&x)) == &x, "move", "source is not usable"); CHECK(m->erase(&x) && m->count() == 0, "move", "source is not usable"); CHECK(t.count() == live.size(), "move", "use of the source changed the target"); EV("moved from reuse"); } m.reset(); m.emplace(std::move(t)); CHECK(m->get_expansion_policy() == pol && m->get_expansion_limit() == lim, "move", "policy lost"); } break;
    case 11: if (rng.chance(1, 3)) { pol = rng.pick<typename Map::ExpansionPolicy>({Map::MANUAL, Map::AVERAGE, Map::MAXIMUM}); lim = rng.below(7); m->set_expansion_policy(pol).set_expansion_limit(lim); CHECK(m->get_expansion_policy() == pol && m->get_expansion_limit() == lim, "policy", "set"); T("policy %d %zu", int(pol), lim); } break;
    case 12: { size_t n = 0; std::set<int> s; std::vector<E *> rm; auto f = [&](E *e) { ++n; CHECK(s.insert(e->id).second && live.count(e->id), "apply", "element %d", e->id); if (rng.chance(1, 6)) { CHECK(m->erase(e), "erase", "during apply"); rm.push_back(e); } }; T("apply"); if (rng.flip()) m->apply(f); else m->apply([&](E &e) { f(&e); }); CHECK(n == live.size(), "apply", "%zu of %zu", n, live.size()); for (auto e : rm) gone(e); break; }
    case 13: if (rng.chance(1, 4)) { // drain by the first element, destroying
      T("drain"); while (m->begin() != m->end()) { E *e = m->begin(); m->erase(m->begin()); live.erase(e->id); e->in = false; } CHECK(m->count() == 0, "count", "drained"); } break;
    }
  }
  void run(size_t n) { for (size_t i = 0; i < n; ++i) { step(); if (live.size() < 40 || i % 8 == 0) verify("after step"); } verify("final"); }
};
SUB(numeric_keys, 80000, 1200000, LEAK) { g_hash = unsigned(rng.below(8)); Drv<Elt, Desc> d(rng, rng.chance(1, 3) ? 1 + rng.below(4) : 4 + rng.below(60)); T("hash %u keys %zu", g_hash, d.keys); d.run(10 + rng.below(rng.chance(1, 6) ? 300 : 60)); }
SUB(text_keys, 50000, 800000, LEAK) { g_hash = unsigned(rng.below(8)); Drv<SElt, SDesc> d(rng, rng.chance(1, 3) ? 1 + rng.below(4) : 4 + rng.below(60)); d.run(10 + rng.below(rng.chance(1, 6) ? 300 : 60)); }
// Many elements: expansion through several table sizes, then removal in another order.
SUB(large, 24, 400, LEAK) {
  g_hash = unsigned(rng.below(8)); if (g_hash == 2 || g_hash == 3 || g_hash > 5) g_hash = 1; swoc::IntrusiveHashMap<Desc> m; size_t n = 2000 + rng.below(6000); u64 kr = rng.flip() ? n : n / 4; std::vector<Elt> e(n); std::vector<u64> cnt(kr); for (size_t i = 0; i < n; ++i) { e[i].key = rng.below(kr); e[i].id = int(i); m.insert(&e[i]); ++cnt[e[i].key]; }
  auto check = [&] { size_t c = 0; std::set<u64> closed; u64 last = ~u64(0); for (auto &x : m) { ++c; if (x.key != last) { CHECK(closed.insert(x.key).second, "adjacent", "key %llu", (unsigned long long)x.key); last = x.key; } } CHECK(c == m.count(), "iterate", "%zu of %zu", c, m.count()); for (u64 k = 0; k < kr; ++k) { auto r = m.equal_range(k); CHECK(u64(std::distance(r.first, r.second)) == cnt[k], "equal_range", "key %llu", (unsigned long long)k); } };
  CHECK(m.count() == n && n / m.bucket_count() <= m.get_expansion_limit(), "expansion", "%zu elements in %zu buckets", n, m.bucket_count()); check();
  for (size_t i = 0; i < n; i += 1 + rng.below(3)) { CHECK(m.erase(&e[i]), "erase", "element %zu", i); --cnt[e[i].key]; } check(); m.expand(); check(); obs(u64(m.bucket_count())); EV("large maps");
}

// A hundred thousand elements and more: the larger table sizes.
SUB(huge, 8, 120, LEAK) {
  g_hash = rng.pick<unsigned>({0, 1, 4, 5}); swoc::IntrusiveHashMap<Desc> m; size_t n = 60000 + rng.below(rng.flip() ? 30000 : 180000); u64 kr = g_hash == 5 ? n / 2 : rng.pick<u64>({n, n / 4, n * 8}); bool rnd = rng.flip(); unsigned policy = unsigned(rng.below(3)); size_t lim = 2 + rng.below(5);
  if (policy == 0) m.set_expansion_policy(decltype(m)::MANUAL); else m.set_expansion_policy(decltype(m)::AVERAGE).set_expansion_limit(lim);
  std::vector<Elt> e(n); std::vector<u32> cnt(kr); std::vector<char> in(n, 1); size_t live = 0; T("hash %u n %zu keys %llu policy %u", g_hash, n, (unsigned long long)kr, policy);
  for (size_t i = 0; i < n; ++i) { e[i].key = rnd ? rng.below(kr) : u64(i) % kr; e[i].id = int(i); m.insert(&e[i]); ++cnt[e[i].key]; ++live; if (policy == 0 && m.bucket_count() * 3 < i) { size_t b = m.bucket_count(); m.expand(); CHECK(m.bucket_count() > b, "expansion", "explicit: %zu -> %zu", b, m.bucket_count()); } CHECK(m.count() == live, "count", "%zu of %zu", m.count(), live); }
  if (policy) CHECK(n / m.bucket_count() <= lim, "expansion", "%zu elements in %zu buckets, limit %zu", n, m.bucket_count(), lim);
  auto check = [&] { std::vector<char> seen(n), closed(kr); u64 last = ~u64(0); size_t c = 0; for (auto &x : m) { CHECK(in[size_t(x.id)] && !seen[size_t(x.id)], "iterate", "element %d", x.id); seen[size_t(x.id)] = 1; ++c; CHECK(c <= live, "iterate", "endless"); if (x.key != last) { CHECK(!closed[x.key], "adjacent", "key %llu", (unsigned long long)x.key); closed[x.key] = 1; last = x.key; } } CHECK(c == live && m.count() == live, "iterate", "%zu of %zu", c, live);
    for (u64 k = 0; k < kr; k += 1 + rng.below(5)) { auto f = m.find(k); CHECK((f != m.end()) == (cnt[k] > 0), "find", "key %llu present %u times", (unsigned long long)k, cnt[k]); if (f != m.end()) CHECK(f->key == k, "find", "key %llu", (unsigned long long)k); if (k % 3 == 0) { auto r = m.equal_range(k); CHECK(u64(std::distance(r.first, r.second)) == cnt[k], "equal_range", "key %llu", (unsigned long long)k); } } };
  check(); for (size_t i = rng.below(3); i < n; i += 1 + rng.below(3)) { auto f = m.find(&e[i]); CHECK(f != m.end() && &*f == &e[i], "find value", "element %zu", i); if (rng.flip()) m.erase(f); else CHECK(m.erase(&e[i]), "erase", "element %zu", i); in[i] = 0; --cnt[e[i].key]; --live; }
  check(); for (size_t i = 0; i < n; ++i) if (!in[i] && rng.flip()) { CHECK(m.find(&e[i]) == m.end(), "find value", "erased element %zu", i); m.insert(&e[i]); in[i] = 1; ++cnt[e[i].key]; ++live; } check(); { size_t b = m.bucket_count(); m.expand(); CHECK(m.bucket_count() > b, "expansion", "explicit: %zu -> %zu", b, m.bucket_count()); } check();
  obs(u64(m.bucket_count())); EV("huge maps");
}
// Long chains and limits past 2^8 (and settings of any size): expansion exactly at the limit.
SUB(long_chains, 120, 2400, LEAK) {
  { size_t n = rng.flip() ? ~size_t(0) - rng.below(100) : (size_t(1) << rng.in(30, 63)) + rng.below(100); T("%zu buckets", n); bool thrown = false; try { swoc::IntrusiveHashMap<Desc> none(n); } catch (std::exception const &) { thrown = true; } CHECK(thrown, "buckets", "%zu buckets constructed", n); EV("impossible bucket counts"); }
  g_hash = 2; using M = swoc::IntrusiveHashMap<Desc>; M m(1); { size_t v = rng.flip() ? size_t(rng.num()) : size_t(rng.u()); m.set_expansion_limit(v); CHECK(m.get_expansion_limit() == v, "policy", "limit %zu is %zu", v, m.get_expansion_limit()); }
  size_t lim = rng.flip() ? 250 + rng.below(12) : rng.below(700); bool avg = rng.chance(1, 3); m.set_expansion_policy(avg ? M::AVERAGE : M::MAXIMUM).set_expansion_limit(lim); size_t n = avg ? lim * m.bucket_count() + m.bucket_count() + 20 : lim + 20; n = std::min<size_t>(n, 2500); u64 kr = avg ? 4 : 1 + rng.below(rng.flip() ? 8 : n); std::vector<Elt> e(n); T("limit %zu, %zu keys, average %d", lim, size_t(kr), avg);
  bool mixed = false, full = false; for (size_t i = 0; i < n; ++i) { e[i].key = rng.below(kr); e[i].id = int(i); mixed = mixed || (i && e[i].key != e[0].key); size_t b = m.bucket_count(); m.insert(&e[i]); size_t a = m.bucket_count(); bool want = avg ? (i + 1) / b > lim : i + 1 > lim && mixed; CHECK((a > b) == want, "expansion", "%zu elements, limit %zu, average %d: buckets %zu -> %zu", i + 1, lim, avg, b, a); full = full || want; if (m.bucket_count() > 3000) m.set_expansion_policy(M::MANUAL), avg = false, lim = n; }
  size_t c = 0; for (auto &x : m) { (void)x; ++c; } CHECK(c == n && m.count() == n, "iterate", "%zu of %zu", c, n); for (u64 k = 0; k < kr; ++k) { auto r = m.equal_range(k); size_t w = 0; for (auto &x : e) w += x.key == k; CHECK(size_t(std::distance(r.first, r.second)) == w, "equal_range", "key %llu", (unsigned long long)k); } if (full) EV("expansions at large limits"); obs(u64(m.bucket_count())); obs(u64(lim));
}
