#include "vh.h"
#include "swoc/TextView.h"
#include <sys/mman.h>
#include <functional>
#include <map>
#include <optional>
using swoc::TextView; using std::string_view; using std::string; using vh::u64;
// T01: extraction partitions the text. Reference: offsets into the original text computed by plain loops.
static constexpr size_t NP = size_t(-1);
using Pred = std::function<bool(char)>;
static size_t ffirst(string_view s, Pred const &p) { for (size_t i = 0; i < s.size(); ++i) if (p(s[i])) return i; return NP; }
static size_t flast(string_view s, Pred const &p) { for (size_t i = s.size(); i-- > 0;) if (p(s[i])) return i; return NP; }
struct Piece { size_t at = 0, n = 0; };
struct Want { Piece ret, rem; };
static void match(TextView got, Piece want, string_view src, char const *op, char const *what, string const &ctx) {
  CHECK(got.size() == want.n, op, "%s %s: size %zu expected %zu (%s)", op, what, got.size(), want.n, ctx.c_str());
  if (want.n) CHECK(got.data() == src.data() + want.at, op, "%s %s: starts at offset %td expected %zu (%s)", op, what, got.data() - src.data(), want.at, ctx.c_str());
  else if (got.data()) CHECK(got.data() >= src.data() && got.data() <= src.data() + src.size(), op, "%s %s: empty view outside the source (%s)", op, what, ctx.c_str());
  vh::obs(got.size() + want.at * 64);
}
static string gen(vh::Rng &rng, size_t mx) {
  static char const A[] = {'a', 'b', ',', ':', '\0', char(0xff), ' ', 'Q'}; unsigned k = unsigned(rng.in(1, 8)); unsigned off = unsigned(rng.below(8)); string s(rng.size(mx), 0);
  for (auto &c : s) c = A[(rng.below(k) + off) % 8]; return s;
}
static void all_ops(string const &text, char c, string const &set, size_t n) {
  vh::HText ht(text); string_view src = ht.view(); vh::HText hs(set); size_t L = src.size();
  string ctx = "text=" + vh::esc(text) + " c=" + vh::esc(string_view(&c, 1)) + " set=" + vh::esc(set) + " n=" + std::to_string(n); vh::T("%s", ctx.c_str());
  Pred isc = [=](char x) { return x == c; }, ins = [&](char x) { return set.find(x) != NP; };
  auto isc_f = [=](char x) { return x == c; }; auto ins_f = [&](char x) { return set.find(x) != NP; };
  Piece whole{0, L}, none{0, 0};
  // op on a const view
  auto cq = [&](char const *op, TextView got, Piece w) { EV("extract"); match(got, w, src, op, "result", ctx); };
  // op on a mutable view: returns piece and leaves remainder.
  auto mq = [&](char const *op, auto &&f, Want w) { EV("extract"); TextView v{src}; TextView r = f(v); match(r, w.ret, src, op, "result", ctx); match(v, w.rem, src, op, "remainder", ctx); };
  auto rq = [&](char const *op, auto &&f, Piece rem) { EV("remove"); TextView v{src}; TextView &r = f(v); CHECK(&r == &v, op, "%s did not return the view itself", op); match(v, rem, src, op, "remainder", ctx); };
  size_t m = std::min(n, L);
  cq("prefix(n)", TextView(src).prefix(n), {0, m}); cq("suffix(n)", TextView(src).suffix(n), {L - m, m});
  if (n < 0x7fffffff) { cq("prefix(int)", TextView(src).prefix(int(n)), {0, m}); cq("suffix(int)", TextView(src).suffix(int(n)), {L - m, m}); }
  rq("remove_prefix", [&](TextView &v) -> TextView & { return v.remove_prefix(n); }, {m, L - m}); rq("remove_suffix", [&](TextView &v) -> TextView & { return v.remove_suffix(n); }, {0, L - m}); rq("operator+=", [&](TextView &v) -> TextView & { return v += n; }, {m, L - m});
  // split by count: removes count + 1 only if count < size
  auto pre = [&](size_t k, bool split) -> Want { if (k < L) return {{0, k}, {k + 1, L - k - 1}}; return split ? Want{none, whole} : Want{whole, none}; };
  auto suf = [&](size_t k, bool split) -> Want { if (k < L) return {{L - k, k}, {0, L - k - 1}}; return split ? Want{none, whole} : Want{whole, none}; };
  mq("split_prefix(n)", [&](TextView &v) { return v.split_prefix(n); }, pre(n, true)); mq("take_prefix(n)", [&](TextView &v) { return v.take_prefix(n); }, pre(n, false));
  mq("split_suffix(n)", [&](TextView &v) { return v.split_suffix(n); }, suf(n, true)); mq("take_suffix(n)", [&](TextView &v) { return v.take_suffix(n); }, suf(n, false));
  if (n < 0x7fffffff) { mq("split_prefix(int)", [&](TextView &v) { return v.split_prefix(int(n)); }, pre(n, true)); mq("split_suffix(int)", [&](TextView &v) { return v.split_suffix(int(n)); }, suf(n, true)); mq("take_suffix(int)", [&](TextView &v) { return v.take_suffix(int(n)); }, suf(n, false)); }
  // by char / set / predicate.
  for (int mode = 0; mode < 5; ++mode) {
    Pred const &p = (mode == 0 || mode == 2) ? isc : ins; size_t f = ffirst(src, p), l = flast(src, p); size_t fs = l == NP ? NP : L - l - 1;
    swoc::CharSet cs{TextView(hs.view())};
#define ALT(NAME, V) (mode == 0 ? (V).NAME##_at(c) : mode == 1 ? (V).NAME##_at(hs.view()) : mode == 2 ? (V).NAME##_if(isc_f) : mode == 3 ? (V).NAME##_if(ins_f) : (V).NAME##_if(cs))
#define ALTR(NAME) [&](TextView &v) -> TextView & { switch (mode) { case 0: return v.NAME##_at(c); case 1: return v.NAME##_at(hs.view()); case 2: return v.NAME##_if(isc_f); case 3: return v.NAME##_if(ins_f); default: return v.NAME##_if(cs); } }
    TextView tv{src};
    cq("prefix_at", ALT(prefix, tv), f == NP ? none : Piece{0, f}); cq("suffix_at", ALT(suffix, tv), l == NP ? none : Piece{l + 1, L - l - 1});
    CHECK(tv.data() == src.data() && tv.size() == L, "const", "const extraction changed the view");
    rq("remove_prefix_at", ALTR(remove_prefix), f == NP ? whole : Piece{f + 1, L - f - 1}); rq("remove_suffix_at", ALTR(remove_suffix), l == NP ? none : Piece{0, l});
    mq("split_prefix_at", [&](TextView &v) { return ALT(split_prefix, v); }, pre(f, true)); mq("take_prefix_at", [&](TextView &v) { return ALT(take_prefix, v); }, pre(f, false));
    mq("split_suffix_at", [&](TextView &v) { return ALT(split_suffix, v); }, suf(fs, true)); mq("take_suffix_at", [&](TextView &v) { return ALT(take_suffix, v); }, suf(fs, false));
    { size_t k = 0; while (k < L && p(src[k])) ++k; mq("clip_prefix_of", [&](TextView &v) { return mode >= 4 ? v.clip_prefix_of(cs) : mode & 1 ? v.clip_prefix_of(ins_f) : v.clip_prefix_of([&](char x) { return p(x); }); }, {{0, k}, {k, L - k}}); }
    { size_t k = 0; while (k < L && p(src[L - 1 - k])) ++k; mq("clip_suffix_of", [&](TextView &v) { return mode >= 4 ? v.clip_suffix_of(cs) : mode & 1 ? v.clip_suffix_of(ins_f) : v.clip_suffix_of([&](char x) { return p(x); }); }, {{L - k, k}, {0, L - k}}); }
    // tokenizing
    std::vector<Piece> tok; { size_t b = 0; for (size_t i = 0; i <= L; ++i) if (i == L || p(src[i])) { tok.push_back({b, i - b}); b = i + 1; } if (tok.back().n == 0) tok.pop_back(); }
    { TextView v{src}; size_t k = 0; while (v) { auto t = ALT(take_prefix, v); CHECK(k < tok.size(), "tokenize", "take_prefix produced more than %zu tokens (%s)", tok.size(), ctx.c_str()); match(t, tok[k], src, "tokenize", "token", ctx); ++k; EV("token"); } CHECK(k == tok.size(), "tokenize", "take_prefix produced %zu tokens expected %zu (%s)", k, tok.size(), ctx.c_str()); }
    tok.clear(); { size_t e = L; for (size_t i = L; ; --i) { if (i == 0 || p(src[i - 1])) { tok.push_back({i, e - i}); if (i == 0) break; e = i - 1; } } if (tok.back().n == 0) tok.pop_back(); }
    { TextView v{src}; size_t k = 0; while (v) { auto t = ALT(take_suffix, v); CHECK(k < tok.size(), "tokenize", "take_suffix produced more than %zu tokens (%s)", tok.size(), ctx.c_str()); match(t, tok[k], src, "tokenize", "suffix token", ctx); ++k; EV("token"); } CHECK(k == tok.size(), "tokenize", "take_suffix produced %zu tokens expected %zu (%s)", k, tok.size(), ctx.c_str()); }
  }
}
SUB(ops, 60000, 2000000, 0) {
  string text = gen(rng, rng.chance(1, 20) ? 300 : 14); string set = gen(rng, 5); static char const A[] = {'a', 'b', ',', ':', '\0', char(0xff), ' ', 'Q'}; char c = rng.pick(A);
  size_t n = rng.chance(1, 8) ? rng.pick({size_t(-1), size_t(-2), size_t(0x7fffffff), size_t(0x80000000u), size_t(1) << 63}) : rng.below(text.size() + 3); all_ops(text, c, set, n);
}
// every text of length <= 6 over a three letter alphabet, every count.
static constexpr unsigned TX = 1 + 3 + 9 + 27 + 81 + 243 + 729;
SUB(exhaustive, TX * 9, TX * 9, vh::EXHAUSTIVE) {
  unsigned k = unsigned(vh::S().idx / 9), n = vh::S().idx % 9; unsigned len = 0, p = 1; while (k >= p) { k -= p; p *= 3; ++len; }
  string s; for (unsigned i = 0; i < len; ++i, k /= 3) s += ",;x"[k % 3]; all_ops(s, ',', n & 1 ? ";" : ",;", n);
}
// histories: alternating extraction at both ends always yields consecutive disjoint pieces.
SUB(history, 40000, 1500000, 0) {
  string text = gen(rng, 60); vh::HText ht(text); TextView v{ht.view()}; string model = text; size_t base = 0; static char const A[] = {'a', 'b', ',', ':', '\0', char(0xff)};
  for (int i = 0; i < 30; ++i) {
    char c = rng.pick(A); size_t n = rng.below(model.size() + 2); TextView r; string want; size_t f = model.find(c), l = model.rfind(c), L = model.size(); size_t adv = 0; int op = int(rng.below(8)); vh::T("op %d c=%d n=%zu on %s", op, c, n, vh::esc(model).c_str());
    switch (op) {
    case 0: r = v.take_prefix_at(c); if (f == NP) { want = model; model.clear(); adv = L; } else { want = model.substr(0, f); model.erase(0, f + 1); adv = f + 1; } break;
    case 1: r = v.split_prefix_at(c); if (f != NP) { want = model.substr(0, f); model.erase(0, f + 1); adv = f + 1; } break;
    case 2: r = v.take_suffix_at(c); if (l == NP) { want = model; model.clear(); } else { want = model.substr(l + 1); model.erase(l); } break;
    case 3: r = v.split_suffix_at(c); if (l != NP) { want = model.substr(l + 1); model.erase(l); } break;
    case 4: r = v.split_prefix(n); if (n < L) { want = model.substr(0, n); model.erase(0, n + 1); adv = n + 1; } break;
    case 5: r = v.split_suffix(n); if (n < L) { want = model.substr(L - n); model.erase(L - n - 1); } break;
    case 6: v.remove_prefix(n); adv = std::min(n, L); model.erase(0, adv); break;
    default: v.remove_suffix_at(c); if (l == NP) model.clear(); else model.erase(l); }
    base += adv; vh::eq_text(r, want, "history", "result"); vh::eq_text(v, model, "history", "remainder"); if (v.size()) CHECK(v.data() == ht.view().data() + base, "history", "remainder moved to the wrong place"); vh::obs(r); vh::obs(v.size());
  }
}
// Scale: kilobytes of text, delimiters rare or dense.
SUB(long_text, 1200, 40000, 0) {
  static char const A[] = {'a', 'b', ',', ':', '\0', char(0xff), ' ', 'Q'}; size_t L = (size_t(1) << rng.in(6, 17)) + rng.below(40) - 20; string text(L, 'a'); unsigned k = unsigned(rng.below(6)); char c = rng.pick({',', '\0', char(0xff)});
  if (rng.chance(1, 3)) { u64 x = rng.u(); for (size_t i = 0; i < L; ++i) text[i] = char('a' + (x >> (i % 59) & 7)); } for (unsigned i = 0; i < k; ++i) text[rng.chance(1, 3) ? rng.below(std::min<size_t>(L, 3)) : rng.flip() ? L - 1 - rng.below(std::min<size_t>(L, 3)) : rng.below(L)] = rng.pick(A); if (k) text[rng.below(L)] = c;
  string set(1, c); if (rng.flip()) set += rng.pick(A); if (rng.chance(1, 6)) set += 'a'; size_t n = rng.chance(1, 3) ? L - rng.below(3) + rng.below(3) : rng.below(L + 2); if (L > 4000 && set.find('a') != NP) set.erase(set.find('a'), 1); if (set.empty()) set = ",";
  all_ops(text, c, set, n); EV("long texts");
}

// Extraction by count from texts of any size: the memory is only reserved (PROT_NONE), so texts pass 2^16, 2^31 and 2^32 characters; operations by count read none of it.
static char *reserve(size_t n) { static char *p = [n] { void *q = mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return q == MAP_FAILED ? nullptr : static_cast<char *>(q); }(); return p; }
SUB(huge_counts, 20000, 1000000, 0) {
  constexpr size_t RES = size_t(3) << 32; char *base = reserve(RES); if (!base) return; /* no address space here: its events are missing from the evidence */ static int const bits[] = {7, 8, 12, 15, 16, 17, 20, 24, 31, 32, 33};
  auto size = [&](size_t limit) -> size_t { switch (rng.below(5)) { case 0: return rng.below(limit + 1); case 1: return limit - std::min<size_t>(limit, rng.below(5)); case 2: return rng.below(limit + 1) >> rng.below(34); default: return (size_t(1) << rng.pick(bits)) + rng.below(7) - 3; } };
  size_t off = 0, cnt = std::min(size(RES), RES); TextView v{base, cnt}; string ctx;
  auto ck = [&](TextView x, size_t o, size_t c, char const *w) { CHECK(x.size() == c && x.length() == c && x.empty() == (c == 0) && bool(x) == (c != 0) && !x == (c == 0), w, "%s: %zu characters expected %zu (%s)", w, x.size(), c, ctx.c_str()); if (c) CHECK(x.data() == base + o && x.data_end() == base + o + c, w, "%s: starts at %td expected %zu (%s)", w, x.data() - base, o, ctx.c_str()); };
  for (int k = 0; k < 10; ++k) {
    size_t n = size(cnt), m = std::min(n, cnt), len = size(cnt); bool take = rng.flip(), small = n <= size_t(INT_MAX) && rng.flip(); TextView r; int op = int(rng.below(9)); ctx = "op " + std::to_string(op) + " n " + std::to_string(n) + " of " + std::to_string(cnt) + (small ? " as int" : ""); vh::T("%s", ctx.c_str());
    auto rest_prefix = [&] { size_t d = std::min(m + 1, cnt); off += d; cnt -= d; }; auto rest_suffix = [&] { cnt -= std::min(m + 1, cnt); };
    switch (op) {
    case 0: r = small ? v.prefix(int(n)) : v.prefix(n); ck(r, off, m, "prefix"); if (take) { v = r; cnt = m; } break;
    case 1: r = small ? v.suffix(int(n)) : v.suffix(n); ck(r, off + cnt - m, m, "suffix"); if (take) { v = r; off += cnt - m; cnt = m; } break;
    case 2: v.remove_prefix(n); off += m; cnt -= m; break;
    case 3: v.remove_suffix(n); cnt -= m; break;
    case 4: r = small ? v.split_prefix(int(n)) : v.split_prefix(n); ck(r, off, n < cnt ? n : 0, "split_prefix"); if (n < cnt) rest_prefix(); break;
    case 5: r = small ? v.split_suffix(int(n)) : v.split_suffix(n); ck(r, n < cnt ? off + cnt - n : off, n < cnt ? n : 0, "split_suffix"); if (n < cnt) rest_suffix(); break;
    case 6: r = v.take_prefix(n); ck(r, off, m, "take_prefix"); rest_prefix(); break;
    case 7: r = small ? v.take_suffix(int(n)) : v.take_suffix(n); ck(r, off + cnt - m, m, "take_suffix"); rest_suffix(); break;
    default: { size_t want = n >= cnt ? 0 : std::min(len, cnt - n); r = v.substr(n, len); ck(r, off + m, want, "substr"); if (take && want) { v = r; off += n; cnt = want; } } }
    ck(v, off, cnt, "remainder"); vh::obs(u64(off * 31 + cnt)); EV("extractions from huge texts");
  }
}
// Extraction by separator from texts past 2^31 and 2^32 characters. The memory is untouched zero pages but for separators written near the two ends, so each scan is short.
SUB(huge_at, 6000, 300000, 0) {
  constexpr size_t RES = (size_t(9) << 30) + 65536;
  static char *const base = [] { void *q = mmap(nullptr, RES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return q == MAP_FAILED ? nullptr : static_cast<char *>(q); }(); if (!base) return;
  size_t total = (size_t(1) << rng.in(31, 33)) + (rng.flip() ? rng.below(4096) : 0) - (rng.flip() ? rng.below(300) : 0); std::vector<std::pair<size_t, char>> seps; // by offset
  static char const C[] = {',', ';', char(0xff)}; unsigned nl = unsigned(rng.below(6)), nr = unsigned(rng.below(6)); std::map<size_t, char> m;
  for (unsigned i = 0; i < nl; ++i) m[rng.below(40)] = C[rng.below(3)]; for (unsigned i = 0; i < nr; ++i) m[total - 1 - rng.below(40)] = C[rng.below(3)];
  for (auto &[o, c] : m) base[o] = c; struct Clean { std::map<size_t, char> &m; char *b; ~Clean() { for (auto &e : m) b[e.first] = 0; } } clean{m, base};
  TextView v{base, total}; size_t off = 0, cnt = total; string ctx;
  auto ck = [&](TextView x, size_t o, size_t c, char const *w) { CHECK(x.size() == c, w, "%s: %zu characters expected %zu (%s)", w, x.size(), c, ctx.c_str()); if (c) CHECK(x.data() == base + o, w, "%s: starts at %td expected %zu (%s)", w, x.data() - base, o, ctx.c_str()); };
  for (int k = 0; k < 8; ++k) {
    char c = C[rng.below(3)]; string set; bool bs = rng.flip(); if (bs) { set.push_back(c); set.push_back(C[rng.below(3)]); } else set.push_back(c); string_view sv = set; auto hit = [&](char x) { return set.find(x) != string::npos; };
    bool right = rng.flip(), pr = rng.chance(1, 3); size_t at = NP;
    if (right) { for (auto i = m.rbegin(); i != m.rend(); ++i) if (i->first >= off && i->first < off + cnt && hit(i->second)) { at = i->first; break; } } else for (auto &e : m) if (e.first >= off && e.first < off + cnt && hit(e.second)) { at = e.first; break; }
    if (at == NP || (right ? off + cnt - at : at - off) > 20000) continue; // it would have to scan everything.
    int op = int(rng.below(4)); TextView r; ctx = string(right ? "suffix" : "prefix") + (pr ? "_if" : bs ? "_at set" : "_at char") + " op " + std::to_string(op) + " of " + std::to_string(cnt); vh::T("%s", ctx.c_str()); size_t i = at - off, tail = cnt - i - 1;
#define AT(NAME) (pr ? NAME##_if(hit) : bs ? NAME##_at(sv) : NAME##_at(c))
    if (right) switch (op) {
      case 0: r = AT(v.suffix); ck(r, at + 1, tail, "suffix"); break;
      case 1: { TextView &x = AT(v.remove_suffix); CHECK(&x == &v, "remove_suffix", "not the view itself"); cnt = i; break; }
      case 2: r = AT(v.split_suffix); ck(r, at + 1, tail, "split_suffix"); cnt = i; break;
      default: r = AT(v.take_suffix); ck(r, at + 1, tail, "take_suffix"); cnt = i; }
    else switch (op) {
      case 0: r = AT(v.prefix); ck(r, off, i, "prefix"); break;
      case 1: { TextView &x = AT(v.remove_prefix); CHECK(&x == &v, "remove_prefix", "not the view itself"); off = at + 1; cnt = tail; break; }
      case 2: r = AT(v.split_prefix); ck(r, off, i, "split_prefix"); off = at + 1; cnt = tail; break;
      default: r = AT(v.take_prefix); ck(r, off, i, "take_prefix"); off = at + 1; cnt = tail; }
#undef AT
    ck(v, off, cnt, "remainder"); vh::obs(u64(off * 31 + cnt)); EV("separators in huge texts");
    if (!(off || cnt)) break;
  }
}
