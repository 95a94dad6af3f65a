// H01: FNV-1a values. Oracle: independent implementation by multiplication, plus the published vectors.
#include "vh.h"
#include "swoc/ext/HashFNV.h"
#include <vector>
using namespace vh; using swoc::Hash32FNV1a; using swoc::Hash64FNV1a; using swoc::transform_view_of; using swoc::TextView;
static u32 ref32(std::string_view s, u32 h = 2166136261u) { for (unsigned char c : s) { h ^= c; h = u32(u64(h) * 16777619u); } return h; }
static u64 ref64(std::string_view s, u64 h = 14695981039346656037ull) { for (unsigned char c : s) { h ^= c; h = u64((unsigned __int128)(h) * 1099511628211ull); } return h; }
static std::string bytes(Rng &rng) { std::string s; size_t n = rng.chance(1, 20) ? rng.below(5000) : rng.below(40); int mode = int(rng.below(4)); for (size_t i = 0; i < n; ++i) s += mode == 0 ? char(rng.u()) : mode == 1 ? char('a' + rng.below(26)) : mode == 2 ? char(0x80 | rng.u()) : char(rng.pick<int>({0, 0xff, 'A', 'z', 0x7f, 0x80})); return s; }
template <class H, class R> static void chunks(Rng &rng, R ref) {
  H h; std::string all; H snap; std::string snap_all;
  for (size_t k = 1 + rng.below(10); k; --k) {
    HText t(bytes(rng)); std::string x(t.view()); T("update %s", esc(x, 40).c_str());
    switch (rng.below(8)) {
    case 0: { H &r = h.update(t.view()); CHECK(&r == &h, "return", "update"); all += x; break; }
    case 1: h.update(transform_view_of(t.view())); all += x; break;
    case 2: { h.update(transform_view_of([](char c) { return char(c ^ 0x55); }, t.view())); for (auto &c : x) c = char(c ^ 0x55); all += x; EV("transformed updates"); break; }
    case 3: { h.update(transform_view_of([](char c) -> int { return c >= 'a' && c <= 'z' ? c - 32 : c; }, TextView(t.view()))); for (auto &c : x) if (c >= 'a' && c <= 'z') c = char(c - 32); all += x; EV("transformed updates"); break; }
    case 4: { auto v = h.hash_immediate(t.view()); all += x; CHECK(v == ref(all), "immediate", "immediate value of %zu bytes", all.size()); break; }
    case 5: { auto v = h.hash_immediate(transform_view_of([](unsigned char c) { return u8(c + 1); }, t.view())); for (auto &c : x) c = char(u8(c) + 1); all += x; CHECK(v == ref(all), "immediate", "immediate value of %zu transformed bytes", all.size()); break; }
    case 6: for (char c : x) { h.update({&c, 1}); } all += x; EV("bytewise updates"); break;
    default: if (rng.chance(1, 2)) { T("clear"); H &r = h.clear(); CHECK(&r == &h, "return", "clear"); all.clear(); EV("clears"); } else if (rng.flip()) { snap = h; snap_all = all; } else { h = snap; all = snap_all; T("restore"); }
    }
    H &f = h.final(); CHECK(&f == &h, "return", "final"); CHECK(h.get() == ref(all), "value", "hash %llx of %zu bytes %s expected %llx", (unsigned long long)h.get(), all.size(), esc(all, 60).c_str(), (unsigned long long)ref(all)); CHECK(snap.get() == ref(snap_all), "copy", "copied state"); obs(u64(h.get())); EV("hash values");
  }
}
SUB(fnv32, 40000, 3000000, LEAK) { chunks<Hash32FNV1a>(rng, [](std::string_view s) { return ref32(s); }); }
SUB(fnv64, 40000, 3000000, LEAK) { chunks<Hash64FNV1a>(rng, [](std::string_view s) { return ref64(s); }); }
// Same text, every split in two and the one shot value agree; all single bytes and byte pairs.
SUB(splits, 4000, 100000, 0) { std::string s = bytes(rng).substr(0, 60); u32 a = ref32(s); u64 b = ref64(s); T("%s", esc(s).c_str()); for (size_t i = 0; i <= s.size(); ++i) { Hash32FNV1a h; Hash64FNV1a g; std::string_view v(s); h.update(v.substr(0, i)).update(v.substr(i)); g.update(v.substr(0, i)).final().update(v.substr(i)); CHECK(h.get() == a && g.get() == b, "split", "split at %zu of %s", i, esc(s).c_str()); EV("splits"); } obs(b); }
SUB(bytes_exhaustive, 256, 256, vh::EXHAUSTIVE) { u8 c = u8(S().idx); for (int d = -1; d < 256; ++d) { std::string s(1, char(c)); if (d >= 0) s += char(d); CHECK(Hash32FNV1a().hash_immediate(std::string_view(s)) == ref32(s) && Hash64FNV1a().hash_immediate(std::string_view(s)) == ref64(s), "bytes", "hash of %s", esc(s).c_str()); EV("hash values"); } obs(c); }
SUB(vectors, 1, 1, vh::EXHAUSTIVE) { // published test vectors
  struct { char const *s; u32 a; u64 b; } v[] = {{"", 0x811c9dc5u, 0xcbf29ce484222325ull}, {"a", 0xe40c292cu, 0xaf63dc4c8601ec8cull}, {"b", 0xe70c2de5u, 0xaf63df4c8601f1a5ull}, {"foobar", 0xbf9cf968u, 0x85944171f73967e8ull}, {"fooba", 0x39aaa18au, 0xcac165afa2fef40aull}, {"chongo was here!\n", 0xd49930d5u, 0x46810940eff5f915ull}};
  for (auto &x : v) { CHECK(Hash32FNV1a().hash_immediate(std::string_view(x.s)) == x.a, "vector32", "%s", x.s); CHECK(Hash64FNV1a().hash_immediate(std::string_view(x.s)) == x.b, "vector64", "%s", x.s); obs(x.b); EV("published vectors"); }
}
// Scale: megabytes through one hash, in large pieces.
SUB(large, 60, 2000, 0) { std::string s((size_t(1) << rng.in(12, 21)) + rng.below(9), 0); u64 x = rng.u(); for (size_t i = 0; i < s.size(); ++i) s[i] = char(x >> (i % 57)) + char(i >> 11); HText t(s); std::string_view v = t.view(); Hash32FNV1a h; Hash64FNV1a g; T("%zu bytes", s.size()); for (size_t at = 0; at < s.size();) { size_t n = std::min(s.size() - at, 1 + rng.below(rng.flip() ? s.size() : 70000)); if (rng.flip()) { h.update(v.substr(at, n)); g.update(v.substr(at, n)); } else { h.update(transform_view_of(v.substr(at, n))); g.update(transform_view_of(v.substr(at, n))); } at += n; } CHECK(h.get() == ref32(s) && g.get() == ref64(s), "large", "hash of %zu bytes", s.size()); CHECK(Hash32FNV1a().hash_immediate(v) == ref32(s) && Hash64FNV1a().hash_immediate(v) == ref64(s), "large", "immediate hash of %zu bytes", s.size()); obs(g.get()); EV("large hashes"); }
