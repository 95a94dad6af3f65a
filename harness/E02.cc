// E02: sinks see each abandoned report once, and report memory is never leaked.
#include "er.h"
#include <list>
using namespace er;

// What the sinks saw, for the current case.
struct Call { u64 sink; std::string text; size_t notes; bool has_sev; u8 sev; int code; };
static std::vector<Call> *g_log; static std::vector<u64> g_order; // identifiers of registered sinks in order.
static void record(u64 id, Errata const &e) { if (!g_log) return; std::string s; swoc::bwprint(s, "{}", e); g_log->push_back({id, s, e.length(), e.has_severity(), u8(e.severity()), e.code().value()}); for (auto &n : e) (void)std::string(n.text()); EV("sink calls"); }
struct Obj : public Errata::Sink { u64 id; explicit Obj(u64 i) : id(i) {} void operator()(Errata const &e) const override { record(id, e); } };
static u64 add_sink(unsigned how) { u64 id = g_order.size(); switch (how) { case 0: Errata::register_sink(std::make_shared<Obj>(id)); break; case 1: { Errata::SinkHandler f = [id](Errata const &e) { record(id, e); }; Errata::register_sink(f); break; } default: Errata::register_sink([id](Errata const &e) { record(id, e); }); } g_order.push_back(id); return id; }
// Registration is done at run time: the order of static initialization across files is not specified.
static void init() { while (g_order.size() < 3) add_sink(unsigned(g_order.size())); }

struct Monitor {
  std::vector<Call> log; std::vector<size_t> at; std::vector<std::string> want; 
  Monitor() { init(); log.reserve(64); g_log = &log; } ~Monitor() { g_log = nullptr; }
  // expect exactly one call for each sink with this content.
  void once(Rep const &r, char const *what) {
    if (!r.data) { CHECK(log.empty(), "spurious", "%s: %zu sink calls for an empty report", what, log.size()); return; }
    if (r.notes.empty() && log.empty()) return; // no notes - reporting is not specified.
    auto text = printed(r); CHECK(log.size() == g_order.size(), "sink count", "%s: %zu sink calls, %zu sinks", what, log.size(), g_order.size());
    for (size_t i = 0; i < log.size(); ++i) { auto &c = log[i]; CHECK(c.sink == g_order[i], "sink order", "%s: call %zu was sink %zu", what, i, size_t(c.sink)); eq_text(c.text, text, "sink content", what); CHECK(c.notes == r.notes.size() && c.has_sev == r.sev.has_value() && c.sev == r.sev.value_or(G.deflt) && c.code == r.code.value(), "sink content", "%s: notes %zu severity %u code %d", what, c.notes, c.sev, c.code); }
    log.clear(); EV("reports sunk");
  }
  void none(char const *what) { CHECK(log.empty(), "spurious", "%s: %zu sink calls", what, log.size()); }
};
template <class V> static Errata relay(V &&e, unsigned depth) { if (depth) return relay(std::move(e), depth - 1); return std::move(e); }
SUB(lifetimes, 60000, 1200000, vh::LEAK) {
  globals(rng); Monitor m; struct Slot { std::optional<Errata> e; Rep r; }; Slot s[3];
  for (u64 n = 3 + rng.below(25); n; --n) {
    unsigned i = unsigned(rng.below(3)), j = unsigned(rng.below(3)); auto &a = s[i]; auto &b = s[j];
    if (!a.e) { a.e.emplace(make(rng, a.r)); m.none("construction"); continue; }
    switch (rng.below(14)) {
    default: annotate(rng, *a.e, a.r); m.none("note"); break;
    case 0: case 1: T("destroy %u", i); a.e.reset(); m.once(a.r, "destroyed"); a.r = Rep{}; break;
    case 2: T("sink %u", i); a.e->sink(); m.once(a.r, "sink"); a.r = Rep{}; verify(*a.e, a.r, "after sink"); break;
    case 3: T("sink twice %u", i); a.e->sink().sink(); m.once(a.r, "sink"); a.r = Rep{}; break;
    case 4: T("clear %u", i); a.e->clear(); m.none("clear"); a.r = Rep{}; break;
    case 5: if (i != j && b.e) { T("%u = move %u", i, j); if (a.r.data) { *a.e = std::move(*b.e); m.log.clear(); /* replacing a report is not specified. */ } else { *a.e = std::move(*b.e); m.none("move"); } a.r = b.r; b.r = Rep{}; if (rng.flip()) { b.e.reset(); m.none("moved from destroyed"); } } break;
    case 6: if (i != j && b.e) { T("%u merge moved %u", i, j); a.e->note(std::move(*b.e)); m.none("merge"); merge(a.r, b.r); b.r = Rep{}; if (rng.flip()) { b.e.reset(); m.none("merged from destroyed"); } } break;
    case 7: if (b.e) { T("%u merge %u", i, j); a.e->note(*b.e); m.none("merge"); merge(a.r, b.r); } break;
    case 8: { T("relay %u", i); Errata t(relay(std::move(*a.e), unsigned(rng.below(3)))); m.none("relay"); if (rng.flip()) { *a.e = std::move(t); m.none("relay"); } else { a.e.reset(); m.none("moved from destroyed"); verify(t, a.r, "relayed"); t.sink(); m.once(a.r, "relayed"); a.r = Rep{}; } break; }
    case 9: { Rep r; { Errata t = make(rng, r); annotate(rng, t, r); m.none("temporary"); } T("temporary"); m.once(r, "temporary"); break; }
    case 10: { Rep r; Errata x = make(rng, r); { Rv<int> v(1, std::move(x)); x.sink(); m.none("moved from sink"); if (rng.flip()) { v.note(Sev(3), "result"); add(r, 3, "result"); } if (rng.flip()) { Rep q; Errata y = make(rng, q); if (rng.chance(2, 3)) annotate(rng, y, q); m.none("result merge"); if (rng.flip()) { v.note(std::move(y)); m.none("result merge"); merge(r, q); y.sink(); m.none("merged into result"); } else { v.note(y); m.none("result merge"); merge(r, q); y.clear(); m.none("result merge"); } verify(v.errata(), r, "result merge"); EV("result merges"); } if (rng.chance(1, 3)) { v.clear(); r = Rep{}; } m.none("result"); } T("result"); m.once(r, "result destroyed"); break; }
    case 11: { std::vector<Errata> vec; std::vector<Rep> reps; for (u64 k = 1 + rng.below(6); k; --k) { Rep r; vec.emplace_back(make(rng, r)); reps.push_back(r); } m.none("container growth"); T("container"); while (!vec.empty()) { vec.pop_back(); m.once(reps.back(), "container element"); reps.pop_back(); } break; }
    case 12: { Rep r; try { Errata t = make(rng, r); throw 1; } catch (int) {} T("unwound"); m.once(r, "unwound"); break; }
    }
    for (auto &x : s) if (x.e) verify(*x.e, x.r, "slot");
  }
  for (auto &x : s) if (x.e) { x.e.reset(); m.once(x.r, "final"); }
}
SUB(registration, 400, 2000, 0) {
  globals(rng); Monitor m; for (u64 n = 1 + rng.below(8); n; --n) { if (rng.chance(1, 3) && g_order.size() < 400) add_sink(unsigned(rng.below(3))); Rep r; { Errata e = make(rng, r); annotate(rng, e, r); m.none("before"); if (rng.flip()) { e.sink(); m.once(r, "sink"); r = Rep{}; } } m.once(r, "destroyed"); obs(u64(g_order.size())); EV("sinks registered"); }
}
// A result wrapper carrying a value with counted life, and reports holding large texts.
SUB(memory, 30000, 600000, vh::LEAK) {
  globals(rng); init(); std::list<Rv<Owned>> l; std::list<Rep> reps; for (u64 n = 1 + rng.below(12); n; --n) { if (l.empty() || rng.chance(2, 3)) { Rep r; Errata e = make(rng, r); for (u64 k = rng.below(12); k; --k) annotate(rng, e, r); int x = int(rng.below(1000000)); l.emplace_back(Owned(x), std::move(e)); reps.push_back(r); } else { auto k = rng.below(l.size()); auto i = std::next(l.begin(), k); auto q = std::next(reps.begin(), k); if (rng.flip()) { l.erase(i); reps.erase(q); } else { Rep r; Errata o = make(rng, r); *i = std::move(o); *q = r; } } auto q = reps.begin(); for (auto &v : l) { verify(v.errata(), *q, "held"); ++q; } } EV("held reports");
  for (auto &v : l) v.result().ok("held");
}

// Scale: reports of hundreds of notes, merged into each other and handed on.
SUB(large, 60, 1500, vh::LEAK) {
  globals(rng); Monitor m; std::vector<Errata> v; std::vector<Rep> r; for (u64 k = 2 + rng.below(4); k; --k) { Rep x; v.push_back(make(rng, x)); u64 n = rng.below(rng.chance(1, 4) ? 3000 : 300); for (u64 i = rng.below(8); i; --i) annotate(rng, v.back(), x); for (u64 i = 0; i < n; ++i) { auto s = text(rng); u8 sv = u8(rng.below(6)); if (rng.flip()) { v.back().note(Sev(sv), s); add(x, sv, s); } else { v.back().note("{}", s); add(x, {}, s); } } r.push_back(x); } m.none("building");
  while (v.size() > 1) { size_t i = rng.below(v.size() - 1); bool mv = rng.flip(); if (mv) v[i].note(std::move(v.back())); else v[i].note(v.back()); m.none("merge"); merge(r[i], r.back()); if (mv) r.back() = Rep{}; v.pop_back(); m.once(r.back(), "merged report"); r.pop_back(); }
  verify(v[0], r[0], "merged"); T("%zu notes", r[0].notes.size()); obs(u64(r[0].notes.size())); v.clear(); m.once(r[0], "destroyed"); EV("large reports");
}
