// Reference model of an error report.
#pragma once
#include "bw.h"
#include "swoc/Errata.h"
#include <optional>
#include <sstream>
namespace er {
using namespace vh; using swoc::Errata; using swoc::TextView; using swoc::Rv; using Sev = Errata::Severity; using namespace std::literals;
struct Note { std::string text; unsigned level = 0; std::optional<u8> sev; };
struct Rep {
  bool data = false; std::optional<u8> sev; std::error_code code; std::vector<Note> notes; std::string glue = "\n", sglue = ": ", aglue = ": ", indent = "  "; bool final = true;
  void up(u8 s) { data = true; if (!sev || *sev < s) sev = s; }
};
struct Globals { u8 deflt = 2, fail = 2, filter = 0; unsigned names = 3; };
inline Globals G;
inline TextView Names[6] = {"Info", "Warning", "Error", "Alert", "Fatal", "Panic"};
inline void globals(Rng &rng) {
  G = Globals{}; if (rng.flip()) { G.deflt = u8(rng.below(6)); G.fail = u8(rng.below(6)); } if (rng.chance(1, 3)) G.filter = u8(rng.below(5)); if (rng.chance(1, 4)) G.names = unsigned(rng.below(7));
  Errata::DEFAULT_SEVERITY = Sev(G.deflt); Errata::FAILURE_SEVERITY = Sev(G.fail); Errata::FILTER_SEVERITY = Sev(G.filter); Errata::SEVERITY_NAMES = swoc::MemSpan<TextView const>(Names, G.names);
}
inline std::string sev_text(u8 s) { return s < G.names ? std::string(Names[s]) : std::to_string(s); }
inline std::string code_text(std::error_code const &c) { return bw::render("{}", c); }
inline std::string printed(Rep const &r) {
  std::string s; if (r.sev) s += sev_text(*r.sev) + r.sglue; if (r.code) s += bw::render("[{0:s} {0:d}] ", r.code); bool any = false;
  for (auto &n : r.notes) { if (n.text.empty()) continue; if (any) s += r.glue; for (unsigned i = 0; i < n.level; ++i) s += r.indent; if (n.sev) s += sev_text(*n.sev) + r.aglue; s += n.text; any = true; }
  if (any && r.final) s += r.glue; return s;
}
inline void add(Rep &r, std::optional<u8> sev, std::string const &text) { if (sev) r.up(*sev); if (!sev || *sev >= G.filter) { r.data = true; r.notes.push_back({text, 0, sev}); } }
inline void merge(Rep &r, Rep const &that) { if (!that.data) return; auto copy = that; r.data = true; if (copy.sev) r.up(*copy.sev); for (auto n : copy.notes) { ++n.level; r.notes.push_back(n); } }
inline std::string describe(Rep const &r) { std::string s = "{" + (r.sev ? std::to_string(*r.sev) : "-"s) + ","; for (auto &n : r.notes) s += esc(n.text, 20) + "@" + std::to_string(n.level) + (n.sev ? "!" + std::to_string(*n.sev) : "") + " "; return s + "}"; }
inline void verify(Errata const &e, Rep const &r, char const *where) {
  CHECK(e.length() == r.notes.size() && e.empty() == r.notes.empty(), "length", "%s: length %zu empty %d expected %zu %s", where, e.length(), e.empty(), r.notes.size(), describe(r).c_str());
  size_t i = 0; for (auto &n : e) { CHECK(i < r.notes.size(), "notes", "%s: extra note", where); auto &w = r.notes[i]; CHECK(n.text() == w.text, "note text", "%s: note %zu is %s expected %s", where, i, esc(n.text()).c_str(), esc(w.text).c_str()); CHECK(n.level() == w.level, "note level", "%s: note %zu level %u expected %u", where, i, n.level(), w.level); CHECK(n.has_severity() == w.sev.has_value() && (!w.sev || (u8(n.severity()) == *w.sev && u8(n.severity(Sev(200))) == *w.sev)) && (w.sev || u8(n.severity(Sev(200))) == 200), "note severity", "%s: note %zu severity", where, i); ++i; }
  CHECK(i == r.notes.size(), "notes", "%s: %zu notes listed, expected %zu", where, i, r.notes.size());
  if (i) { CHECK(e.front().text() == r.notes.front().text && e.back().text() == r.notes.back().text, "ends", "%s: front/back", where); auto it = e.end(); for (size_t k = i; k-- > 0;) { --it; CHECK(it->text() == r.notes[k].text, "notes", "%s: backwards note %zu", where, k); } }
  CHECK(e.has_severity() == r.sev.has_value() && u8(e.severity()) == r.sev.value_or(G.deflt), "severity", "%s: severity %u (set %d) expected %s", where, unsigned(u8(e.severity())), e.has_severity(), describe(r).c_str());
  CHECK(e.code() == r.code, "code", "%s: code %d expected %d", where, e.code().value(), r.code.value());
  bool ok = !r.data || r.sev.value_or(G.deflt) < G.fail; CHECK(e.is_ok() == ok && bool(e) == ok && !e == !ok, "success", "%s: is_ok %d expected %d", where, e.is_ok(), ok);
  CHECK(e.annotation_glue_text() == r.glue && e.severity_glue_text() == r.sglue && e.annotation_severity_glue_text() == r.aglue && e.indent_text() == r.indent, "decoration", "%s: decoration", where);
}
inline void verify_print(Errata const &e, Rep const &r, char const *where) { auto want = printed(r); std::string s; swoc::bwprint(s, "{}", e); eq_text(s, want, "print", where); std::ostringstream os; os << e; eq_text(os.str(), want, "stream", where); std::ostringstream o2; e.write(o2); eq_text(o2.str(), want, "stream", where); obs(want); }
inline std::string text(Rng &rng) { size_t n = rng.chance(1, 30) ? 400 + rng.below(3000) : rng.chance(1, 10) ? 60 + rng.below(200) : rng.below(24); std::string s(n, 0); for (auto &c : s) c = rng.chance(1, 40) ? char(rng.u()) : char('a' + rng.below(26)); return s; }
inline std::error_code gen_code(Rng &rng) { if (rng.chance(1, 8)) return {int(rng.in(-300, 70000)), rng.flip() ? std::system_category() : std::generic_category()}; switch (rng.below(5)) { case 0: return {}; case 1: return {int(rng.below(134)), std::generic_category()}; case 2: return std::make_error_code(std::errc(1 + rng.below(40))); default: return {int(rng.below(134)), std::system_category()}; } }
// Apply one random note/decoration to @a e and its model. Source text is released before returning.
inline void annotate(Rng &rng, Errata &e, Rep &r) {
  auto s = text(rng); HText h(s); u8 v = u8(rng.below(6)); Sev sv(v); int k = int(rng.in(-500, 500)); auto code = gen_code(rng);
  switch (rng.below(16)) {
  case 0: case 1: e.note(h.view()); add(r, {}, s); T("note(%s)", esc(s, 30).c_str()); break;
  case 2: case 3: e.note(sv, h.view()); add(r, v, s); T("note(%u,%s)", v, esc(s, 30).c_str()); break;
  case 4: e.note("{}|{}", h.view(), k); add(r, {}, s + "|" + std::to_string(k)); T("note(fmt %s,%d)", esc(s, 30).c_str(), k); break;
  case 5: e.note(sv, "{1}:{0:>5}", k, h.view()); { auto d = std::to_string(k); add(r, v, s + ":" + std::string(d.size() < 5 ? 5 - d.size() : 0, ' ') + d); } T("note(%u,fmt)", v); break;
  case 6: e.note(sv); add(r, v, sev_text(v)); T("note(severity %u)", v); break;
  case 7: e.note(code); add(r, {}, code_text(code)); T("note(code %d)", code.value()); break;
  case 8: e.note(code, sv); add(r, v, sev_text(v) + ": " + code_text(code)); T("note(code %d, %u)", code.value(), v); break;
  case 9: { bool has = rng.flip(); e.note_s(has ? std::optional<Sev>(sv) : std::nullopt, h.view()); add(r, has ? std::optional<u8>(v) : std::nullopt, s); T("note_s"); break; }
  case 10: { bool has = rng.flip(); e.note_sv(has ? std::optional<Sev>(sv) : std::nullopt, "<{}>", std::forward_as_tuple(h.view())); add(r, has ? std::optional<u8>(v) : std::nullopt, "<" + s + ">"); T("note_sv"); break; }
  case 11: if (rng.flip()) { e.note_v("{0}{0}", std::forward_as_tuple(h.view())); add(r, {}, s + s); } else { e.note_v(sv, "{0}-", std::forward_as_tuple(h.view())); add(r, v, s + "-"); } T("note_v"); break;
  case 12: if (!r.notes.empty()) { // text already in the report
    auto n = rng.below(r.notes.size()); auto it = e.begin(); for (size_t i = 0; i < n; ++i) ++it; auto t = r.notes[n].text; if (rng.flip()) { e.note(it->text()); add(r, {}, t); } else { e.note(sv, "{}{}", it->text(), k); add(r, v, t + std::to_string(k)); } T("note own text %zu", size_t(n)); } break;
  case 13: if (rng.flip()) { e.assign(sv); r.data = true; r.sev = v; T("assign severity %u", v); } else { e.update(sv); r.up(v); T("update severity %u", v); } break;
  case 14: e.assign(code); r.data = true; r.code = code; T("assign code %d", code.value()); break;
  default: { std::string g(rng.below(5), 0); for (auto &c : g) c = rng.pick<char>({' ', ',', ';', '\n', '-', '>', '{', '}', '0', char(0x80)}); HText gh(g); TextView gv(gh.view()); r.data = true;
    switch (rng.below(4)) { case 0: r.final = rng.flip(); e.assign_annotation_glue_text(gv, r.final); r.glue = g; break; case 1: e.assign_severity_glue_text(gv); r.sglue = g; break; case 2: e.assign_annotation_severity_glue_text(gv); r.aglue = g; break; default: e.assign_indent_text(gv); r.indent = g; } T("decorate %s", esc(g).c_str()); }
  }
  obs(describe(r)); EV("annotations");
}
// Construct a report in one of the supported ways.
inline Errata make(Rng &rng, Rep &r) {
  r = Rep{}; auto s = text(rng); HText h(s); u8 v = u8(rng.below(6)); Sev sv(v); auto code = gen_code(rng); r.data = true; auto note = [&](std::string const &t) { r.notes.push_back({t, 0, {}}); }; unsigned how = unsigned(rng.below(14)); T("construct %u %s sev %u code %d", how, esc(s, 30).c_str(), v, code.value()); EV("constructed");
  switch (how) {
  case 0: r.data = false; return Errata();
  case 1: r.code = code; return Errata(code);
  case 2: r.sev = v; return Errata(sv);
  case 3: r.sev = v; r.code = code; return Errata(code, sv);
  case 4: r.code = code; note(code_text(code)); return Errata(code, Errata::AUTO);
  case 5: r.sev = v; note(sev_text(v)); return Errata(sv, Errata::AUTO);
  case 6: r.sev = v; r.code = code; note(sev_text(v) + ": " + code_text(code)); return Errata(code, sv, Errata::AUTO);
  case 7: r.sev = v; r.code = code; note(s); return Errata(code, sv, h.view());
  case 8: r.sev = v; note(s); return Errata(sv, h.view());
  case 9: r.sev = G.deflt; r.code = code; note(s); return Errata(code, h.view());
  case 10: r.sev = G.deflt; note(s); return Errata(h.view());
  case 11: r.sev = v; r.code = code; note(s + "!" + std::to_string(v)); return Errata(code, sv, "{}!{}", h.view(), int(v));
  case 12: r.sev = G.deflt; r.code = code; note("a " + s); return Errata(code, "a {}", h.view());
  default: if (rng.flip()) { r.sev = v; note("b " + s); return Errata(sv, "b {}", h.view()); } r.sev = G.deflt; note("c " + s); return Errata("c {}", h.view());
  }
}
} // namespace er
