// B01: buffer writers store exactly what fits, never outside their limits, and count everything.
#include "vh.h"
#include "swoc/BufferWriter.h"
#include "swoc/ArenaWriter.h"
#include "swoc/bwf_base.h"
#include <sstream>
#include <sys/mman.h>
using namespace vh;
using swoc::ArenaWriter; using swoc::BufferWriter; using swoc::FixedBufferWriter; using swoc::LocalBufferWriter; using swoc::MemSpan; using swoc::TextView;

// Reference writer over a private image of the whole buffer.
struct Model {
  std::string buf; size_t cap, att = 0, held = 0; // held: restricted amount
  explicit Model(std::string b) : buf(std::move(b)), cap(buf.size()) {}
  size_t size() const { return std::min(att, cap); }
  void put(char c) { if (att < cap) buf[att] = c; ++att; }
  void put(std::string_view v) { for (char c : v) put(c); }
  void copy(size_t d, size_t s, size_t n) {
    size_t lim = size(); std::string src = buf.substr(0, lim);
    for (size_t i = 0; i < n && s + i < lim && d + i < lim; ++i) buf[d + i] = src[s + i];
  }
};
static void check(FixedBufferWriter const &w, char const *real, Model const &m, std::string const &op) {
  auto c = op.c_str();
  CHECK(w.extent() == m.att, "extent", "after %s: extent %zu expected %zu", c, w.extent(), m.att);
  CHECK(w.capacity() == m.cap, "capacity", "after %s: capacity %zu expected %zu", c, w.capacity(), m.cap);
  CHECK(w.size() == m.size(), "size", "after %s: size %zu expected %zu", c, w.size(), m.size());
  CHECK(w.remaining() == m.cap - m.size(), "remaining", "after %s: remaining %zu expected %zu", c, w.remaining(), m.cap - m.size());
  CHECK(w.error() == (m.att > m.cap), "error", "after %s: error %d with extent %zu capacity %zu", c, int(w.error()), m.att, m.cap);
  CHECK(w.view().size() == m.size() && (0 == m.size() || w.view().data() == real), "view", "after %s: view does not cover the output", c);
  CHECK(std::string_view(w) == w.view() && TextView(w) == w.view(), "view", "conversions");
  CHECK(0 == memcmp(real, m.buf.data(), m.buf.size()), "content", "after %s: buffer %s expected %s", c, esc({real, m.buf.size()}).c_str(), esc(m.buf).c_str());
}
static std::string text(Rng &rng, size_t max) { std::string s(rng.size(max), 0); for (auto &c : s) c = char('a' + rng.below(26)); return s; }

static void drive(Rng &rng, FixedBufferWriter &w, char *real, Model &m, u64 steps) {
  check(w, real, m, "construct");
  for (; steps; --steps) {
    std::string op; char b[100];
    switch (rng.below(16)) {
    case 0: case 1: { char c = char('A' + rng.below(26)); op = "write(char)"; w.write(c); m.put(c); break; }
    case 2: case 3: { auto s = text(rng, 12); HText h(s); op = "write(view) " + s; switch (rng.below(3)) { case 0: w.write(h.view()); break; case 1: w.write(h.data(), h.size()); break; default: w.write(MemSpan<void const>{h.data(), h.size()}); } m.put(s); break; }
    case 4: { // direct write in to the auxiliary space
      auto s = text(rng, 10); op = "aux " + s; auto sp = w.aux_span(); CHECK(sp.size() == m.cap - m.size(), "aux", "aux span size %zu", sp.size());
      if (m.att <= m.cap) { CHECK(w.aux_data() == real + m.att, "aux", "aux data at %td not %zu", w.aux_data() - real, m.att); size_t k = std::min(s.size(), sp.size()); if (k) memcpy(sp.data(), s.data(), k); }
      CHECK(w.commit(s.size()), "commit", "fixed writer refused a commit"); m.put(s); EV("aux commits"); break; }
    case 5: case 6: { size_t n = rng.size(m.att + 3); op = "discard"; w.discard(n); m.att -= std::min(n, m.att); snprintf(b, sizeof b, " %zu", n); op += b; EV("discards"); break; }
    case 7: case 8: {
      size_t n = rng.size(m.cap + 2); op = "restrict"; snprintf(b, sizeof b, " %zu", n); op += b;
      if (n > m.cap) { bool t = false; try { w.restrict(n); } catch (std::invalid_argument const &) { t = true; } CHECK(t, "restrict", "restricting %zu of %zu accepted", n, m.cap); EV("refused restricts"); }
      else { w.restrict(n); m.cap -= n; m.held += n; EV("restricts"); }
      break; }
    case 9: case 10: if (m.held) { size_t n = 1 + rng.below(m.held); if (rng.flip()) n = m.held; snprintf(b, sizeof b, "restore %zu", n); op = b; w.restore(n); m.att = std::min(m.att, m.cap); m.cap += n; m.held -= n; EV("restores"); } break;
    case 11: case 12: { size_t d = rng.below(m.att + 2), s = rng.below(m.att + 2), n = rng.size(m.att + 4); snprintf(b, sizeof b, "copy(%zu,%zu,%zu)", d, s, n); op = b; if (m.att <= m.cap || (d <= m.cap && s <= m.cap)) { w.copy(d, s, n); m.copy(d, s, n); EV("copies"); } break; }
    case 13: if (rng.chance(1, 4)) { op = "clear"; w.clear(); m.att = 0; } break;
    case 14: { u64 v = rng.num(); op = "print"; std::string e = "<" + std::to_string(v) + ">"; 
      // the tail beyond the committed output is not specified for print.
      std::string before = m.buf; m.put(e); w.print("<{}>", v); for (size_t i = m.size(); i < m.cap; ++i) m.buf[i] = real[i]; break; }
    case 15: { std::ostringstream os; os << static_cast<BufferWriter const &>(w); eq_text(os.str(), std::string_view(m.buf).substr(0, m.size()), "stream", "operator<<"); os.str(""); w >> os; eq_text(os.str(), std::string_view(m.buf).substr(0, m.size()), "stream", "operator>>"); break; }
    }
    T("%s", op.c_str()); check(w, real, m, op); obs(u64(m.att) << 32 | m.cap << 16 | m.held); if (m.att > m.cap) EV("steps in error state");
  }
}
SUB(fixed, 260000, 2600000, 0) {
  size_t n = rng.chance(1, 10) ? 0 : rng.below(50);
  // Guards on both sides inside one block, so that the writes into them are seen as a content change as well as by ASan at the ends.
  size_t g = rng.flip() ? 0 : 8; std::vector<char> block(n + 2 * g, '#'); std::string init(n, '.'); if (n) memcpy(block.data() + g, init.data(), n);
  HText exact(std::string(n, '.')); char *real = g ? block.data() + g : exact.data();
  Model m(init);
  switch (rng.below(4)) {
  case 0: { FixedBufferWriter w{real, n}; drive(rng, w, real, m, 1 + rng.below(40)); break; }
  case 1: { FixedBufferWriter w{MemSpan<char>{real, n}}; drive(rng, w, real, m, 1 + rng.below(40)); break; }
  case 2: { FixedBufferWriter w{MemSpan<void>{real, n}}; drive(rng, w, real, m, 1 + rng.below(40)); break; }
  default: { // moved around
    FixedBufferWriter a{real, n}; drive(rng, a, real, m, rng.below(20)); char other[7]; FixedBufferWriter b{std::move(a)}; check(b, real, m, "move construct");
    CHECK(a.capacity() == 0 && a.extent() == 0 && a.data() == nullptr, "move", "moved from writer still attached"); a.write("zz"); CHECK(a.extent() == 2 && a.error(), "move", "detached writer");
    FixedBufferWriter c{other, 7}; c = std::move(b); check(c, real, m, "move assign"); drive(rng, c, real, m, rng.below(20));
    memset(other, '.', 7); c.assign(MemSpan<char>{other, 7}); Model m2(std::string(7, '.')); drive(rng, c, other, m2, rng.below(10)); check(c, other, m2, "assign"); break; }
  }
  for (size_t i = 0; i < g; ++i) CHECK(block[i] == '#' && block[g + n + i] == '#', "guard", "byte outside of the buffer was changed");
}
SUB(local, 40000, 400000, 0) {
  auto go = [&](auto &w, size_t n) { std::string init(n, '.'); memset(w.aux_data(), '.', n); Model m(init); drive(rng, w, w.aux_data(), m, 1 + rng.below(40)); };
  switch (rng.below(3)) { case 0: { LocalBufferWriter<1> w; go(w, 1); break; } case 1: { LocalBufferWriter<17> w; go(w, 17); break; } default: { LocalBufferWriter<64> w; go(w, 64); } }
}
SUB(null_writer, 4000, 40000, 0) { // sizing pass with no buffer at all.
  FixedBufferWriter w{nullptr}; size_t total = 0;
  for (u64 n = rng.below(20); n; --n) { auto s = text(rng, 30); switch (rng.below(4)) { case 0: w.write(s); total += s.size(); break; case 1: w.write('x'); ++total; break; case 2: w.print("[{:>20}]", s); total += 2 + std::max<size_t>(20, s.size()); break; default: w.commit(3); total += 3; }
    CHECK(w.extent() == total && w.size() == 0 && w.remaining() == 0 && w.error() == (total > 0), "extent", "null writer extent %zu expected %zu", w.extent(), total); obs(u64(total)); }
  bool t = false; try { FixedBufferWriter bad{static_cast<char *>(nullptr), size_t(1 + rng.below(5))}; } catch (std::invalid_argument const &) { t = true; } CHECK(t, "null buffer", "null buffer with a size accepted");
}
// The generic interface: a writer which only implements the pure virtual part must behave as the fixed one.
class Minimal : public BufferWriter {
public:
  std::string s; size_t cap, att = 0; explicit Minimal(size_t n) : s(n, '.'), cap(n) {}
  BufferWriter &write(char c) override { if (att < cap) s[att] = c; ++att; return *this; }
  using BufferWriter::write;
  char const *data() const override { return s.data(); } bool error() const override { return att > cap; } size_t capacity() const override { return cap; } size_t extent() const override { return att; }
  char *aux_data() override { return error() ? nullptr : s.data() + att; }
  bool commit(size_t n) override { att += n; return true; } BufferWriter &discard(size_t n) override { att -= std::min(att, n); return *this; }
  BufferWriter &restrict(size_t n) override { cap -= n; return *this; } BufferWriter &restore(size_t n) override { cap += n; return *this; } BufferWriter &copy(size_t, size_t, size_t) override { return *this; }
  std::ostream &operator>>(std::ostream &o) const override { return o << std::string_view(s).substr(0, size()); }
};
SUB(custom_writer, 20000, 200000, 0) {
  size_t n = rng.below(60); Minimal w(n); std::string want;
  for (u64 k = rng.below(12); k; --k) { auto s = text(rng, 9); switch (rng.below(4)) { case 0: w.write(s); want += s; break; case 1: w.write(MemSpan<void const>{s.data(), s.size()}); want += s; break; case 2: w.write(s.data(), s.size()); want += s; break; default: w.print("{:>4}|", s); want += std::string(s.size() < 4 ? 4 - s.size() : 0, ' ') + s + "|"; } 
    CHECK(w.extent() == want.size() && w.error() == (want.size() > n), "custom writer", "extent %zu expected %zu", w.extent(), want.size()); CHECK(w.remaining() == n - std::min(n, want.size()), "custom writer", "remaining"); obs(u64(want.size())); }
  eq_text(std::string_view(w.s).substr(0, w.size()), std::string_view(want).substr(0, n), "custom writer", "content");
}

// Scale: buffers of kilobytes and megabytes, block writes of any size.
SUB(large, 600, 20000, LEAK) {
  size_t cap = (size_t(1) << rng.in(8, 20)) + rng.below(40) - 20; std::string img(cap, '#'); HText g(img); FixedBufferWriter w{g.data(), cap}; Model m(img); T("capacity %zu", cap); u64 x = rng.u(); std::string src(std::min<size_t>(cap * 2, cap + 70000), 0); for (size_t i = 0; i < src.size(); ++i) src[i] = char('a' + (x >> (i % 59) & 15)); HText sh(src);
  auto put = [&](std::string_view v) { if (m.att < m.cap) memcpy(&m.buf[m.att], v.data(), std::min(v.size(), m.cap - m.att)); m.att += v.size(); };
  for (size_t k = 4 + rng.below(16); k; --k) {
    size_t at = rng.below(src.size()), n = rng.pick<size_t>({rng.below(40), m.cap - std::min(m.cap, m.att), m.cap - std::min(m.cap, m.att) + 1, rng.below(cap), rng.below(cap / 4 + 1), rng.below(70000)}); n = std::min(n, src.size() - at); std::string op;
    switch (rng.below(10)) {
    case 0: case 1: case 2: { op = "write " + std::to_string(n); auto v = sh.view().substr(at, n); if (rng.flip()) w.write(v); else w.write(v.data(), v.size()); put(v); break; }
    case 3: { op = "fill chars"; for (size_t i = 0; i < 300; ++i) w.write(src[i]); put(std::string_view(src).substr(0, 300)); break; }
    case 4: { auto sp = w.aux_span(); n = std::min(n, sp.size()); op = "aux " + std::to_string(n); if (m.att <= m.cap) { memcpy(sp.data(), src.data() + at, n); CHECK(w.commit(n), "commit", "refused"); put(std::string_view(src).substr(at, n)); } break; }
    case 5: n = std::min(n, m.att); op = "discard " + std::to_string(n); w.discard(n); m.att -= n; break;
    case 6: n = std::min(n, m.cap); op = "restrict " + std::to_string(n); w.restrict(n); m.cap -= n; m.held += n; break;
    case 7: if (m.held) { n = 1 + rng.below(m.held); op = "restore " + std::to_string(n); w.restore(n); m.att = std::min(m.att, m.cap); m.cap += n; m.held -= n; } break;
    case 8: { size_t d = rng.below(m.size() + 1), s = rng.below(m.size() + 1), c = rng.below(m.size() + 2); op = "copy " + std::to_string(d) + " " + std::to_string(s) + " " + std::to_string(c); w.copy(d, s, c); m.copy(d, s, c); break; }
    default: { op = "print"; u64 v = rng.num(); w.print("{}{}", sh.view().substr(at, n), v); put(std::string_view(src).substr(at, n)); put(std::to_string(v)); for (size_t i = m.size(); i < m.cap; ++i) m.buf[i] = g.data()[i]; } }
    T("%s", op.c_str()); check(w, g.data(), m, op); obs(u64(m.att) << 20 | m.cap); EV("large steps");
  }
}

// Buffers, extents and counts past 2^31 and 2^32: the buffer is reserved address space of which only the written pages are touched.
SUB(huge, 6000, 200000, 0) {
  constexpr size_t RES = size_t(9) << 30; static char *base = [] { void *q = mmap(nullptr, RES + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return q == MAP_FAILED ? nullptr : static_cast<char *>(q); }(); if (!base) return; /* no address space here: its events are missing from the evidence */
  static int const bits[] = {8, 12, 15, 16, 17, 20, 24, 30, 31, 32, 33}; auto some = [&](size_t limit) -> size_t { switch (rng.below(4)) { case 0: return rng.below(limit + 1); case 1: return limit - std::min<size_t>(limit, rng.below(40)); default: return (size_t(1) << rng.pick(bits)) + rng.below(40) - 20; } };
  size_t cap = std::min(some(RES), RES), att = 0, held = 0; FixedBufferWriter w{base, cap}; std::vector<std::pair<size_t, size_t>> touched;
  auto put = [&](std::string const &s, char const *op) { size_t fit = att < cap ? std::min(s.size(), cap - att) : 0; if (fit) CHECK(0 == memcmp(base + att, s.data(), fit), "content", "%s at %zu of %zu: %s", op, att, cap, esc({base + att, fit}).c_str()); if (fit) touched.emplace_back(att, fit); att += s.size(); };
  for (int k = 0; k < 12; ++k) {
    size_t n = some(cap); char op[80] = "";
    switch (rng.below(9)) {
    case 0: { auto s = text(rng, 40); w.write(s); put(s, "write"); break; }
    case 1: { if (att < cap) touched.emplace_back(att, 1); w.write('!'); if (att < cap) CHECK(base[att] == '!', "content", "character at %zu", att); ++att; break; }
    case 2: { auto s = text(rng, 20); std::string want = "<" + s + ":" + std::to_string(k) + ">"; if (att < cap) touched.emplace_back(att, std::min<size_t>(cap - att, 4096)); w.print("<{}:{}>", s, k); put(want, "print"); break; }
    case 3: case 4: n = std::min(n, RES * 2); w.commit(n); snprintf(op, sizeof op, "commit %zu", n); att += n; break;
    case 5: w.discard(n); snprintf(op, sizeof op, "discard %zu", n); att -= std::min(n, att); break;
    case 7: { size_t lim = std::min(att, cap); if (!lim) break; size_t src = std::min(some(lim), lim - 1), dst = rng.flip() ? std::min(some(lim), lim - 1) : src + 20 - std::min<size_t>(src + 20, rng.below(40)); if (dst >= lim) dst = lim - 1; n = rng.below(30); size_t eff = std::min(n, lim - std::max(src, dst)); auto t = text(rng, 40); t.resize(eff, '~'); if (eff) { memcpy(base + src, t.data(), eff); touched.emplace_back(src, eff); touched.emplace_back(dst, eff); }
      char after = base[dst + eff]; bool inside = dst + eff >= src && dst + eff < src + eff; w.copy(dst, src, n); snprintf(op, sizeof op, "copy %zu to %zu, %zu", src, dst, n); CHECK(0 == memcmp(base + dst, t.data(), eff), "copy", "%s: %s expected %s", op, esc({base + dst, eff}).c_str(), esc(t).c_str()); if (!inside) CHECK(base[dst + eff] == after, "copy", "%s: wrote past the %zu it should", op, eff); EV("huge copies"); break; }
    case 6: n = std::min(n, cap); w.restrict(n); snprintf(op, sizeof op, "restrict %zu", n); cap -= n; held += n; break;
    default: if (held) { n = std::min(n, held); w.restore(n); snprintf(op, sizeof op, "restore %zu", n); att = std::min(att, cap); cap += n; held -= n; } }
    T("%s", op); size_t sz = std::min(att, cap); CHECK(w.extent() == att, "extent", "after %s: %zu expected %zu", op, w.extent(), att); CHECK(w.capacity() == cap && w.size() == sz && w.remaining() == cap - sz && w.error() == (att > cap), "size", "after %s: capacity %zu size %zu remaining %zu, extent %zu of %zu", op, w.capacity(), w.size(), w.remaining(), att, cap);
    CHECK(w.view().size() == sz && w.aux_span().size() == cap - sz, "view", "after %s: view of %zu, aux span %zu", op, w.view().size(), w.aux_span().size()); if (att <= cap) CHECK(w.aux_data() == base + att, "aux", "aux data at %td not %zu", w.aux_data() - base, att); obs(u64(att * 7 + cap)); EV("steps with huge buffers");
  }
  for (auto [a, n] : touched) { size_t b = a & ~size_t(4095); madvise(base + b, ((a + n + 4095) & ~size_t(4095)) - b, MADV_DONTNEED); }
}
