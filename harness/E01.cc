// E01: error reports keep every note, in order, with the right severity and code.
#include "er.h"
using namespace er;

struct Slot { Errata e; Rep r; };
template <class V> Errata pass(V &&e) { return std::move(e); }
static Errata pass_note(Errata e, std::string_view t) { return std::move(e.note(t)); }

SUB(history, 60000, 1500000, vh::LEAK) {
  globals(rng); constexpr unsigned N = 4; std::optional<Slot> s[N]; for (auto &x : s) x.emplace();
  struct Seen { unsigned slot; void const *note; void const *text; }; std::vector<Seen> seen;
  auto forget = [&](unsigned k) { seen.erase(std::remove_if(seen.begin(), seen.end(), [&](Seen const &x) { return x.slot == k; }), seen.end()); };
  for (u64 n = 3 + rng.below(30); n; --n) {
    unsigned i = unsigned(rng.below(N)), j = unsigned(rng.below(N)); auto &a = *s[i]; auto &b = *s[j];
    switch (rng.below(20)) {
    default: annotate(rng, a.e, a.r); break;
    case 0: case 1: T("slot %u merge %u", i, j); a.e.note(const_cast<Errata const &>(b.e)); merge(a.r, b.r); EV("merges"); break;
    case 2: if (i != j) { T("slot %u merge moved %u", i, j); a.e.note(std::move(b.e)); merge(a.r, b.r); b.r = Rep{}; forget(j); EV("merges"); } break;
    case 3: if (i != j) { T("slot %u = move %u", i, j); a.e = std::move(b.e); a.r = b.r; b.r = Rep{}; forget(i); for (auto &x : seen) if (x.slot == j) x.slot = i; EV("moves"); } else { T("self move %u", i); auto &alias = a.e; a.e = std::move(alias); } break;
    case 4: { T("slot %u replaced", i); Rep r; s[i].reset(); s[i].emplace(Slot{make(rng, r), {}}); s[i]->r = r; forget(i); break; }
    case 5: { T("slot %u assigned new", i); Rep r; a.e = make(rng, r); a.r = r; forget(i); break; }
    case 6: { T("slot %u through function", i); Errata t(pass(std::move(a.e))); verify(a.e, Rep{}, "moved from"); verify(t, a.r, "returned"); a.e = pass(std::move(t)); verify(t, Rep{}, "moved from"); break; }
    case 7: { T("slot %u through noting function", i); a.e = pass_note(std::move(a.e), "passed"); add(a.r, {}, "passed"); break; }
    case 8: if (rng.chance(1, 3)) { T("slot %u clear", i); a.e.clear(); a.r = Rep{}; forget(i); } break;
    case 9: { T("slot %u swap %u", i, j); if (i != j) { std::swap(a.e, b.e); std::swap(a.r, b.r); for (auto &x : seen) { if (x.slot == i) x.slot = j; else if (x.slot == j) x.slot = i; } } break; }
    case 10: { Rep r; Errata t = make(rng, r); u64 m = rng.below(4); while (m--) annotate(rng, t, r); T("slot %u merge temporary", i); if (rng.flip()) { a.e.note(std::move(t)); verify(t, Rep{}, "merged from"); } else { a.e.note(t); verify(t, r, "merged from"); } merge(a.r, r); break; }
    }
    for (unsigned k = 0; k < N; ++k) verify(s[k]->e, s[k]->r, ("slot " + std::to_string(k)).c_str());
    if (rng.chance(1, 4)) verify_print(s[i]->e, s[i]->r, "printed");
    if (seen.size() < 40) { auto &x = *s[i]; if (!x.r.notes.empty()) seen.push_back({i, &x.e.back(), x.e.back().text().data()}); }
    for (auto &x : seen) { bool found = false; for (auto &note : s[x.slot]->e) if (&note == x.note) { found = true; CHECK(note.text().data() == x.text, "stable", "text of a note moved"); } CHECK(found, "stable", "note disappeared from slot %u", x.slot); }
  }
  for (unsigned k = 0; k < N; ++k) verify_print(s[k]->e, s[k]->r, "final");
}
SUB(constructors, 60000, 600000, vh::LEAK) { globals(rng); Rep r; Errata e = make(rng, r); verify(e, r, "constructed"); verify_print(e, r, "constructed"); for (u64 n = rng.below(4); n; --n) { annotate(rng, e, r); verify(e, r, "annotated"); } verify_print(e, r, "annotated"); Errata f(std::move(e)); verify(f, r, "moved"); verify(e, Rep{}, "moved from"); Rep q; annotate(rng, e, q); verify(e, q, "reused after move"); verify(f, r, "moved"); }
// The severity of a report is the maximum of all the severities, whatever is filtered.
SUB(severities, 60000, 600000, 0) {
  globals(rng); Errata e; std::optional<u8> best; std::vector<std::string> kept; for (u64 n = rng.below(12); n; --n) { u8 v = u8(rng.below(256)); if (rng.flip()) v = u8(rng.below(7)); auto t = "n" + std::to_string(rng.below(100)); if (rng.flip()) e.note(Sev(v), t); else e.note(Sev(v), "n{}", t.substr(1)); if (!best || *best < v) best = v; if (v >= G.filter) kept.push_back(t); T("severity %u", v); obs(v); }
  CHECK(e.has_severity() == best.has_value() && (!best || u8(e.severity()) == *best), "maximum", "severity %u", unsigned(u8(e.severity()))); size_t i = 0; for (auto &n : e) { CHECK(i < kept.size() && n.text() == kept[i], "filtered", "note %zu %s", i, esc(n.text()).c_str()); ++i; } CHECK(i == kept.size(), "filtered", "%zu notes kept, expected %zu", i, kept.size());
}
// Result carrying wrapper.
using R = Rv<std::string>;
static R ret(std::string const &v, Errata e, unsigned how) { switch (how) { case 0: return {v, std::move(e)}; case 1: { std::string t(v); return {std::move(t), std::move(e)}; } case 2: { R r{v}; r = std::move(e); return r; } case 3: { R r(std::move(e)); r = v; return r; } case 4: { R r(std::move(e)); std::string t(v); r.assign(std::move(t)); return r; } case 5: { R r(std::move(e)); r.assign(v); return r; } default: return swoc::MakeRv(std::string(v), std::move(e)); } }
static void verify(R &r, std::string const &v, Rep const &q, char const *where) { er::verify(r.errata(), q, where); er::verify(const_cast<R const &>(r).errata(), q, where); er::verify(static_cast<Errata &>(r), q, where); CHECK(r.result() == v && const_cast<R const &>(r).result() == v && static_cast<std::string const &>(r) == v, "result", "%s: result %s expected %s", where, r.result().c_str(), v.c_str()); CHECK(r.is_ok() == r.errata().is_ok(), "result ok", "%s", where); }
SUB(results, 60000, 600000, vh::LEAK) {
  globals(rng); Rep q; Errata e = make(rng, q); for (u64 n = rng.below(3); n; --n) annotate(rng, e, q); auto v = text(rng); unsigned how = unsigned(rng.below(7)); T("return form %u", how); R r = ret(v, std::move(e), how); er::verify(e, Rep{}, "moved from"); verify(r, v, q, "returned"); EV("results");
  for (u64 n = rng.below(6); n; --n) {
    auto t = text(rng); HText h(t); u8 s = u8(rng.below(6)); Sev sv(s); auto code = gen_code(rng); int k = int(rng.below(1000));
    switch (rng.below(10)) {
    case 0: r.note(h.view()); add(q, {}, t); break; case 1: r.note(sv, h.view()); add(q, s, t); break; case 2: r.note(code); add(q, {}, code_text(code)); break; case 3: r.note(code, sv); add(q, s, sev_text(s) + ": " + code_text(code)); break; case 4: r.note("{}/{}", h.view(), k); add(q, {}, t + "/" + std::to_string(k)); break; case 5: r.note(sv, "{}/{}", h.view(), k); add(q, s, t + "/" + std::to_string(k)); break;
    case 6: { Rep o; Errata f = make(rng, o); annotate(rng, f, o); if (rng.flip()) { r.note(std::move(f)); er::verify(f, Rep{}, "merged by move"); } else { r.note(f); er::verify(f, o, "merged from"); } merge(q, o); break; }
    case 7: { v = t; switch (rng.below(3)) { case 0: { auto &x = (r = t); CHECK(&x == &r.result(), "assign result", "assignment does not return the result"); break; } case 1: { std::string m(t); auto &x = (r = std::move(m)); CHECK(&x == &r.result(), "assign result", "move assignment does not return the result"); break; } default: r.result() = t; } break; }
    case 8: { Rep o; r = make(rng, o); q = o; break; }
    default: if (rng.flip()) { R m(std::move(r)); verify(m, v, q, "moved"); r = R(std::move(m)); } else if (rng.chance(1, 3)) { r.clear(); q = Rep{}; } else { annotate(rng, r.errata(), q); } }
    verify(r, v, q, "result");
  }
  verify_print(r.errata(), q, "result");
  { R const &c = r; auto const &[cres, cerr] = c; CHECK(cres == v && &cres == &c.result(), "binding", "const structured binding value"); er::verify(cerr, q, "const binding"); }
  { R const &c = r; CHECK(&swoc::get<0>(c) == &c.result() && &swoc::get<1>(c) == &c.errata() && &swoc::get<0>(r) == &r.result() && &swoc::get<1>(r) == &r.errata() && &swoc::get<0>(std::move(r)) == &r.result() && &swoc::get<1>(std::move(r)) == &r.errata(), "get", "tuple access"); }
  { auto &[lres, lerr] = r; CHECK(&lres == &r.result() && &lerr == &r.errata(), "binding", "reference binding"); std::string const t2 = text(rng); r = t2; v = t2; CHECK(lres == v, "binding", "assigned result"); er::verify(lerr, q, "assigned result"); }
  if (rng.flip()) { auto [mres, merr] = std::move(r); CHECK(mres == v, "binding", "moved structured binding value"); er::verify(merr, q, "moved binding"); r = R(std::move(mres), std::move(merr)); verify(r, v, q, "rebuilt"); EV("bindings"); }
  auto &&[res, err] = std::move(r); CHECK(res == v, "binding", "structured binding value"); er::verify(err, q, "binding");
}
// Scale: thousands of notes, notes of up to a megabyte, hundreds of nested merges.
SUB(large, 60, 1500, vh::LEAK) {
  globals(rng); Errata e; Rep r; auto big = [&] { size_t n = rng.chance(1, 8) ? rng.below(1u << 20) : rng.chance(1, 3) ? rng.below(70000) : rng.below(300); std::string s(n, 0); u64 x = rng.u(); for (size_t i = 0; i < n; ++i) s[i] = char('a' + (x >> (i % 59) & 15)); return s; };
  std::vector<std::pair<void const *, size_t>> kept; unsigned mode = unsigned(rng.below(3)); size_t n = mode == 0 ? (rng.chance(1, 6) ? 65500 + rng.below(6000) : 1000 + rng.below(4000)) : mode == 1 ? 10 + rng.below(30) : 20 + rng.below(500); T("mode %u of %zu", mode, n);
  for (size_t i = 0; i < n; ++i) {
    if (mode == 0) { std::string t = "note " + std::to_string(i) + std::string(i % 37, '.'); if (rng.chance(1, 3)) { u8 v = u8(rng.below(6)); e.note(Sev(v), t); add(r, v, t); } else { e.note("{}", t); add(r, {}, t); } }
    else if (mode == 1) { auto t = big(); HText h(t); switch (rng.below(4)) { case 0: e.note(h.view()); add(r, {}, t); break; case 1: e.note(Sev(3), "{}!{}", h.view(), i); add(r, 3, t + "!" + std::to_string(i)); break; case 2: if (!r.notes.empty() && r.notes.back().text.size() < (2u << 20)) { auto q = r.notes.back().text; e.note("{0}+{0}", e.back().text()); add(r, {}, q + "+" + q); } break; default: e.note("{:>{}}"sv.size() ? "{:>70000}" : "", h.view().substr(0, 20)); { auto q = t.substr(0, 20); add(r, {}, std::string(70000 - q.size(), ' ') + q); } } }
    else { Errata o; Rep q; std::string t = "outer " + std::to_string(i); o.note(t); add(q, {}, t); if (rng.flip()) { o.note(std::move(e)); } else o.note(e); merge(q, r); e = std::move(o); r = q; }
    if (mode != 2 && !r.notes.empty() && kept.size() < 500 && rng.chance(1, 3)) kept.emplace_back(e.back().text().data(), r.notes.size() - 1);
  }
  verify(e, r, "large"); std::vector<void const *> at; for (auto &x : e) at.push_back(x.text().data()); for (auto &[p, i] : kept) CHECK(at[i] == p, "stable", "text of note %zu moved", i); verify_print(e, r, "large");
  Errata m(std::move(e)); verify(m, r, "moved"); verify(e, Rep{}, "moved from"); Errata c; Rep cr; if (rng.flip()) { c.note("first"); add(cr, {}, "first"); } if (rng.flip()) c.note(m); else c.note(std::move(m)); merge(cr, r); verify(c, cr, "merged"); obs(u64(cr.notes.size())); EV("large reports");
}
