// X01: separate objects, and shared constant objects, can be used from several threads (ThreadSanitizer build).
// The oracle is the race detector plus comparison with the digests of a single threaded run of the same work.
#include "vh.h"
#include <atomic>
#include <iomanip>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include "swoc/TextView.h"
#include "swoc/MemSpan.h"
#include "swoc/MemArena.h"
#include "swoc/BufferWriter.h"
#include "swoc/ArenaWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_ip.h"
#include "swoc/bwf_std.h"
#include "swoc/swoc_ip.h"
#include "swoc/DiscreteRange.h"
#include "swoc/IPRange.h"
#include "swoc/IPSrv.h"
#include "swoc/Lexicon.h"
#include "swoc/IntrusiveHashMap.h"
#include "swoc/IntrusiveDList.h"
#include "swoc/Errata.h"
#include "swoc/Scalar.h"
#include "swoc/swoc_file.h"
#include "swoc/Vectray.h"
#include "swoc/RBTree.h"
#if __has_include("swoc/ext/HashFNV.h")
#include "swoc/ext/HashFNV.h"
#endif
using namespace vh; using swoc::TextView; using swoc::MemSpan; using swoc::Errata; using namespace std::literals; using namespace swoc::literals;
#define NOINL __attribute__((noinline))

struct Dig { u64 h = 0x9E37; u64 n = 0; void add(u64 v) { h = mix64(h ^ v) + 1; ++n; } void add(std::string_view s) { add(hash_bytes(s.data(), s.size())); } };
static void maybe_yield(Rng &r) { switch (r.below(24)) { case 0: sched_yield(); break; case 1: { for (volatile int i = 0; i < int(r.below(400)); i = i + 1) {} break; } default: break; } }
static std::string word(Rng &r, size_t n = 8) { std::string s; for (size_t k = 1 + r.below(n); k; --k) s += char('a' + r.below(26)); return s; }
template <class... A> static void fmt(Dig &d, TextView f, A const &...a) { std::string s; try { swoc::bwprint(s, f, a...); } catch (std::exception const &x) { s = x.what(); } d.add(s); }

// ---- work on own objects
static NOINL void w_format(Rng &r, Dig &d) {
  std::string t = word(r, 20); int i = int(r.num()); u64 u = r.num(); double f = double(i64(r.below(2000000)) - 1000000) / 64;
  switch (r.below(22)) {
  case 0: fmt(d, "{:>20}|{:<8}|{:^9}", t, i, u); break; case 1: fmt(d, "{:#x} {:#X} {:#b} {:#o} {:+}", u, u, u, u, i); break; case 2: fmt(d, "{} {:.3} {:>12.2}", f, f, f); break;
  case 3: fmt(d, "{1} {0} {1}", t, i); break; case 4: fmt(d, "{0} {3}", t, i); break; case 5: fmt(d, "{} {}", true, false); fmt(d, "{:s} {:S} {:d}", true, false, true); break;
  case 6: fmt(d, "{} {:s} {:d}", swoc::bwf::Errno(int(r.below(140))), swoc::bwf::Errno(int(r.below(140))), swoc::bwf::Errno(int(r.below(140)))); break;
  case 7: fmt(d, "{} {:s} {:d}", std::error_code(int(r.below(134)), std::generic_category()), std::make_error_code(std::errc::io_error), std::error_code(int(r.below(134)), std::system_category())); break;
  case 8: fmt(d, "{:x} {:X} {:x}", TextView(t), MemSpan<void const>(t.data(), t.size()), swoc::bwf::As_Hex(i)); break;
  case 9: fmt(d, "{} {::gmt} {::local}", swoc::bwf::Date(time_t(r.below(4000000000u))), swoc::bwf::Date(time_t(r.below(2000000000u)), "%H:%M:%S"_tv), swoc::bwf::Date(time_t(r.below(2000000000u)))); break;
  case 10: fmt(d, "{}", swoc::bwf::Optional(" [{}]", t)); fmt(d, "{}{}", swoc::bwf::If(i > 0, "pos {}", i), swoc::bwf::FirstOf(t, "none")); break;
  case 11: fmt(d, "<{}>", swoc::bwf::If(t.size() > 4, "sub {} {}", t, i)); break; case 12: fmt(d, "{:*^{}}", t); fmt(d, "{{}} {{{}}}", i); fmt(d, "{:%2a<10}", t); fmt(d, "{"); fmt(d, "}"); break;
  case 13: { swoc::bwf::Format F(TextView("{0:>10} {1:x} {unknown}")); swoc::LocalBufferWriter<200> w; w.print(F, t, u); d.add(w.view()); break; }
  case 14: { swoc::LocalBufferWriter<64> w; w.print("{}:{}", t, i).write(t).restrict(3).write("xyz"sv); d.add(w.view()); d.add(w.extent()); break; }
  case 15: fmt(d, "{}", swoc::bwf::Pattern{int(r.below(5)), t}); fmt(d, "{}", swoc::bwf::UnHex("48656c6c6f"sv)); break;
  case 16: fmt(d, "{name-a} {name-b} {missing}"); break; case 17: fmt(d, "{}", std::bitset<12>(u)); fmt(d, "{}", std::chrono::seconds(i)); break;
  case 18: { std::ostringstream os; swoc::LocalBufferWriter<80> w; w.print("{:>30}", t); os << w << TextView(t); d.add(os.str()); break; }
  case 19: { swoc::bwf::ContextNames<int> names; names.assign("v", [](swoc::BufferWriter &w, swoc::bwf::Spec const &s, int &x) -> swoc::BufferWriter & { return bwformat(w, s, x); }); swoc::LocalBufferWriter<100> w; w.print_n(names.bind(i), "<{v}|{v:#x}>"); d.add(w.view()); break; }
  case 20: fmt(d, "{} {} {}", 1e300, -0.0, std::numeric_limits<double>::infinity()); fmt(d, "{} {}", std::numeric_limits<double>::quiet_NaN(), 4.9e-324); break;
  case 21: fmt(d, "{:p} {:x}", static_cast<void *>(nullptr), swoc::MemSpan<char>()); fmt(d, "{} {}", 'c', "literal"); break;
  }
}
static swoc::IP6Addr ip6(u64 hi, u64 lo) { in6_addr a; for (int i = 7; i >= 0; --i) { a.s6_addr[i] = u8(hi); hi >>= 8; a.s6_addr[8 + i] = u8(lo); lo >>= 8; } return swoc::IP6Addr(a); }
static std::string addr(Rng &r) { return r.flip() ? std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) : (r.flip() ? "::"s : "fe80::"s) + "ab" + std::to_string(r.below(100)) + ":" + std::to_string(r.below(100)); }
static NOINL void w_ip(Rng &r, Dig &d) {
  std::string a = addr(r), b = addr(r);
  swoc::IPAddr x{a}, y{b}; fmt(d, "{} {} {::p} {::^}", x, y, x, y); d.add(x.is_valid()); d.add(x < y); d.add(x.is_multicast()); d.add(x.is_loopback()); d.add(x.is_private());
  swoc::IPRange rg; d.add(rg.load(a + "/" + std::to_string(r.below(33)))); fmt(d, "{}", rg); for (auto const &n : rg.networks()) { fmt(d, "{}", n); break; }
  d.add(rg.load(a + "-" + b)); fmt(d, "{::c}", rg); swoc::IPMask m(u8(r.below(33))); fmt(d, "{}", m); d.add(m.width());
  std::string full = x.is_ip6() ? "[" + a + "]:" + std::to_string(r.below(65536)) : a + ":" + std::to_string(r.below(65536)); swoc::IPSrv s{TextView(full)}; fmt(d, "{} {::a} {::p}", s, s, s); swoc::IPEndpoint ep; d.add(ep.parse(full)); fmt(d, "{} {::fap}", ep, ep); TextView h, p, rest; d.add(swoc::IPEndpoint::tokenize(full, &h, &p, &rest)); d.add(h); d.add(p);
  swoc::IPNet net; d.add(net.load(a + "/" + std::to_string(r.below(129)))); fmt(d, "{}", net); std::ostringstream os; os << x << rg; d.add(os.str());
}
static NOINL void w_space(Rng &r, Dig &d) {
  swoc::IPSpace<int> sp; for (u64 n = 5 + r.below(20); n; --n) { u32 a = u32(r.below(4000)), b = a + u32(r.below(300)); swoc::IPRange g{swoc::IP4Range{swoc::IP4Addr(a), swoc::IP4Addr(b)}}; int v = int(r.below(8));
    switch (r.below(5)) { case 0: sp.mark(g, v); break; case 1: sp.fill(g, v); break; case 2: sp.erase(g); break; case 3: sp.blend(g, v, [](int &p, int c) { p ^= c; return p != 0; }); break; case 4: { swoc::IP6Range g6{ip6(0, a), ip6(0, b)}; sp.mark(swoc::IPRange{g6}, v); break; } } maybe_yield(r); }
  d.add(sp.count()); for (auto const &[g, v] : sp) { fmt(d, "{} {}", g, v); } for (int i = 0; i < 10; ++i) { auto it = sp.find(swoc::IPAddr(swoc::IP4Addr(u32(r.below(4400))))); d.add(it != sp.end() ? std::get<1>(*it) : -1); }
  swoc::IPRangeSet rs; for (int i = 0; i < 4; ++i) { u32 a = u32(r.below(1000)); rs.mark(swoc::IPRange{swoc::IP4Range{swoc::IP4Addr(a), swoc::IP4Addr(a + u32(r.below(50)))}}); } d.add(rs.count()); d.add(rs.contains(swoc::IPAddr(swoc::IP4Addr(u32(r.below(1000))))));
}
static NOINL void w_text(Rng &r, Dig &d) {
  std::string s; for (int i = 0; i < 6; ++i) s += word(r) + ",; "[r.below(3)]; TextView t{s}; while (t) { d.add(t.take_prefix_at(r.flip() ? ","_tv : ",;"_tv).trim(" ")); maybe_yield(r); }
  std::string num = std::to_string(i64(r.u())); TextView p; d.add(u64(swoc::svtoi(num, &p, int(r.pick({0, 8, 10, 16}))))); d.add(p.size()); d.add(swoc::svtou("0x" + word(r, 3), nullptr, 16)); double f = swoc::svtod(num + ".5e" + std::to_string(r.below(20))); u64 u; memcpy(&u, &f, 8); d.add(u);
  std::string A = word(r), B = word(r); d.add(u64(i64(strcasecmp(TextView(A), TextView(B)) < 0))); d.add(TextView(A).starts_with_nocase(TextView(B).prefix(1))); swoc::CharSet cs{"abc"}; d.add(TextView(A).find_first_of("abc"));
  swoc::MemSpan<char const> ms{s.data(), s.size()}; d.add(std::string_view(ms.prefix(4).data(), 4)); std::vector<int> v(16, int(r.below(9))); MemSpan<int> vi{v.data(), v.size()}; vi[3] = 7; d.add(u64(vi.rebind<void>().size())); d.add(u64(memcmp(vi, vi)));
}
static NOINL void w_arena(Rng &r, Dig &d) {
  swoc::MemArena a(r.below(2) ? 0 : 64); std::vector<std::pair<MemSpan<void>, char>> v; for (u64 n = 4 + r.below(30); n; --n) { switch (r.below(8)) { default: { size_t k = r.below(200); auto s = a.alloc(k); char c = char(r.u()); memset(s.data(), c, k); v.emplace_back(s, c); break; } case 0: { auto t = word(r, 30); auto l = a.localize(t); d.add(std::string_view(l.data(), l.size())); } break; case 1: for (auto &[s, c] : v) for (auto b : s.rebind<char>()) d.add(u64(b == c)); v.clear(); a.freeze(r.below(1000)); a.thaw(); break; case 2: { struct Q { int x, y; }; auto q = a.make<Q>(Q{1, int(n)}); d.add(u64(q->y)); break; } } maybe_yield(r); }
  for (auto &[s, c] : v) for (auto b : s.rebind<char>()) d.add(u64(b == c)); d.add(a.size()); swoc::FixedArena<std::array<char, 24>> fa(a); auto x = fa.make(); auto y = fa.make(); fa.destroy(x); auto z = fa.make(); d.add(u64(z == x)); fa.destroy(y);
  swoc::ArenaWriter w{a}; w.print("{} {:>40}", word(r), int(r.below(99))); d.add(w.view()); swoc::Vectray<std::string, 2> vr; for (u64 n = r.below(7); n; --n) vr.emplace_back(word(r)); for (auto const &e : vr) d.add(e);
}
enum class C8 : int { A = 1, B = 2, C = 3, X = 9 };
static NOINL void w_lexicon(Rng &r, Dig &d) {
  swoc::Lexicon<C8> lx{{{C8::A, {"alpha", "a"}}, {C8::B, {"bravo", "b"}}}, C8::X, "none"}; std::string n = word(r) + "z"; lx.define(C8::C, n); d.add(u64(lx["ALPHA"])); d.add(u64(lx["nope"])); d.add(lx[C8::C]); d.add(lx[C8(77)]); d.add(lx.count()); for (auto const &p : lx.by_names()) d.add(u64(std::get<0>(p)) * 2 + (std::get<1>(p) == n)); swoc::Lexicon<C8> l2(std::move(lx)); d.add(u64(l2[n])); for (auto const &p : l2) d.add(u64(std::get<1>(p).size()));
}
struct HE { u64 key; HE *_next = nullptr, *_prev = nullptr; struct Links { static HE *&next_ptr(HE *e) { return e->_next; } static HE *&prev_ptr(HE *e) { return e->_prev; } }; };
struct HD : HE::Links { static u64 key_of(HE const *e) { return e->key; } static u64 hash_of(u64 k) { return k * 0x9E3779B97F4A7C15ull; } static bool equal(u64 a, u64 b) { return a == b; } };
struct NLinks { static HE *&next_ptr(HE *e) { return e->_next; } static HE *&prev_ptr(HE *e) { return e->_prev; } };
struct TN : swoc::detail::RBNode { int k; };
static NOINL void w_hash(Rng &r, Dig &d) {
  swoc::IntrusiveHashMap<HD> m; std::vector<std::unique_ptr<HE>> own; for (u64 n = 20 + r.below(80); n; --n) { if (r.chance(1, 5) && !own.empty()) { u64 k = r.below(60); m.erase(m.equal_range(k)); } else { own.emplace_back(new HE{r.below(60)}); m.insert(own.back().get()); } maybe_yield(r); }
  d.add(m.count()); d.add(m.bucket_count()); u64 sum = 0; for (auto &e : m) sum += mix64(e.key); d.add(sum); for (u64 k = 0; k < 62; ++k) { auto g = m.equal_range(k); u64 c = 0; for (auto it = g.first; it != g.second; ++it) ++c; d.add(c); } m.clear();
  swoc::IntrusiveDList<NLinks> l; for (u64 i = 0; i < 10; ++i) { auto e = new HE{i}; if (r.flip()) l.append(e); else l.prepend(e); } for (auto &e : l) d.add(e.key); while (auto e = l.take_head()) delete e;
  swoc::Scalar<1024, long> k{long(r.below(100))}; swoc::Scalar<7, long> q{swoc::round_up(k)}; d.add(u64(q.value())); k += swoc::Scalar<1024, long>{5}; d.add(u64(k.count()));
}
static NOINL void w_errata(Rng &r, Dig &d) {
  Errata e; for (u64 n = 1 + r.below(8); n; --n) { switch (r.below(6)) { case 0: e.note("text {}", word(r)); break; case 1: e.note(Errata::Severity(u8(r.below(6))), "sev {} {}", int(n), word(r)); break; case 2: e.note(std::make_error_code(std::errc::not_connected)); break; case 3: { Errata o{std::error_code(int(1 + r.below(100)), std::generic_category()), Errata::Severity(3), "other {}", word(r)}; e.note(std::move(o)); break; } case 4: { Errata t(std::move(e)); e = std::move(t); break; } case 5: e.note(Errata::Severity(1)); break; } maybe_yield(r); }
  fmt(d, "{}", e); std::ostringstream os; os << e; d.add(os.str()); d.add(u64(u8(e.severity()))); d.add(e.is_ok()); for (auto const &n : e) d.add(n.text()); swoc::Rv<int> rv{7, std::move(e)}; d.add(rv.is_ok()); d.add(rv.errata().length()); { Errata s; s.note("sunk").sink(); } { swoc::Rv<std::string> rs{word(r)}; rs.note("x"); d.add(rs.errata().length()); }
}
static NOINL void w_file(Rng &r, Dig &d) {
  swoc::file::path p{word(r)}; p /= std::string_view(word(r)); auto q = swoc::file::path("/x") / p; d.add(q.string()); d.add(q.parent_path().string()); d.add(q.filename().string()); fmt(d, "{}", p); std::error_code ec; d.add(swoc::file::exists(swoc::file::path("/dev/null"))); auto fs = swoc::file::status(swoc::file::path("/nonexistent/" + word(r)), ec); d.add(u64(ec.value())); d.add(exists(fs)); d.add(swoc::file::canonical(swoc::file::path("/dev/../dev/null"), ec).string()); d.add(swoc::file::load(swoc::file::path("/proc/version"), ec).size() > 3); d.add(std::hash<swoc::file::path>()(p)); d.add(swoc::file::temp_directory_path().string()); d.add(swoc::file::current_path().empty());
}
#if __has_include("swoc/ext/HashFNV.h")
static NOINL void w_digest(Rng &r, Dig &d) { swoc::Hash32FNV1a a; swoc::Hash64FNV1a b; for (u64 n = r.below(5); n; --n) { auto s = word(r, 30); a.update(s); b.update(s); } a.final(); b.final(); d.add(a.get()); d.add(b.get()); auto s = word(r); d.add(swoc::Hash64FNV1a().hash_immediate(swoc::transform_view_of([](char c) { return char(toupper(c)); }, TextView(s)))); }
#else
static NOINL void w_digest(Rng &r, Dig &d) { d.add(r.u()); }
#endif
// The family specific types, each with its own parsing, iteration and formatting.
static NOINL void w_net(Rng &r, Dig &d) {
  auto n4 = [&] { return std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)); }; auto n6 = [&] { return (r.flip() ? "::"s : "2001:db8::"s) + "f" + std::to_string(r.below(100)) + ":" + std::to_string(r.below(100)); };
  for (int k = 0; k < 4; ++k) { std::string a = n4(), b = n4(), c = n6(), e = n6(), w4 = std::to_string(r.below(34)), w6 = std::to_string(r.below(131)), pt = std::to_string(r.below(70000));
    switch (r.below(9)) {
    case 0: { swoc::IP4Addr x{a}; swoc::IP6Addr y{c}; d.add(x.host_order()); fmt(d, "{} {:x} {::=} {} {::=}", x, x, x, y, y); d.add(x.is_private()); d.add(y.is_link_local()); d.add(y.is_loopback()); d.add(x < swoc::IP4Addr{b}); d.add(y < swoc::IP6Addr{e}); ++x; --y; x &= swoc::IPMask(9); y |= swoc::IPMask(70); fmt(d, "{} {}", x, y); std::ostringstream os; os << x << y; d.add(os.str()); break; }
    case 1: { swoc::IP4Range g; d.add(g.load(a + "-" + b)); if (g.empty()) g.load(b + "-" + a); fmt(d, "{} {::c}", g, g); d.add(g.contains(swoc::IP4Addr{b})); u64 n = 0; auto ns = g.networks(); for (auto it = ns.begin(); it != ns.end() && n < 6; it++, ++n) fmt(d, "{}", *it); d.add(g.load(a + "/" + w4)); fmt(d, "{}", g); d.add(g.load(a + "/255.255.0.0")); d.add(u64(g.network_mask().width())); break; }
    case 2: { swoc::IP6Range g; d.add(g.load(c + "-" + e)); if (g.empty()) g.load(e + "-" + c); fmt(d, "{} {::c}", g, g); d.add(g.contains(swoc::IP6Addr{e})); u64 n = 0; auto ns = g.networks(); for (auto it = ns.begin(); it != ns.end() && n < 6; it++, ++n) fmt(d, "{}", *it); d.add(g.load(c + "/" + w6)); fmt(d, "{}", g); d.add(g.load(c + "/ffff:ffff::")); d.add(u64(g.network_mask().width())); break; }
    case 3: { swoc::IP4Net x; d.add(x.load(a + "/" + w4)); fmt(d, "{} {} {}", x, x.min(), x.max()); d.add(x.load(a + "/255.255.240.0")); fmt(d, "{}", x); swoc::IP6Net y; d.add(y.load(c + "/" + w6)); fmt(d, "{} {} {}", y, y.min(), y.max()); d.add(y.load(c + "/ffff:f000::")); fmt(d, "{}", y.as_range()); swoc::IPNet z; d.add(z.load((r.flip() ? a : c) + "/12")); fmt(d, "{} {}", z, z.as_range()); break; }
    case 4: { swoc::IP4Srv x; d.add(x.load(a + ":" + pt)); fmt(d, "{}", x); d.add(x.load(a)); swoc::IP6Srv y; d.add(y.load("[" + c + "]:" + pt)); fmt(d, "{}", y); d.add(y.load(c)); swoc::IPSrv z; d.add(z.load(r.flip() ? a + ":" + pt : "[" + c + "]:" + pt)); fmt(d, "{} {::ap} {::f}", z, z, z); d.add(x < swoc::IP4Srv(swoc::IP4Addr{b}, 5)); d.add(z == x); d.add(y == z); break; }
    case 5: { swoc::IPEndpoint p, q; d.add(p.parse(a + ":" + pt)); d.add(q.parse("[" + c + "]:" + pt)); swoc::IPEndpoint t{p}; fmt(d, "{} {} {::=a} {::p} {::f}", t, q, t, t, q); t.assign(&q.sa); fmt(d, "{}", t); t.set_to_any(r.flip() ? AF_INET : AF_INET6); fmt(d, "{}", t); t.set_to_loopback(AF_INET6); fmt(d, "{}", t); t.assign(swoc::IPAddr{b}); d.add(t.is_valid()); sockaddr_storage ss{}; swoc::IPEndpoint::assign(reinterpret_cast<sockaddr *>(&ss), q); fmt(d, "{}", swoc::IPEndpoint(reinterpret_cast<sockaddr *>(&ss))); d.add(swoc::IPEndpoint::family_name(t.family())); d.add(t == p); d.add(u64(t.host_order_port())); break; }
    case 6: { swoc::IPMask m; d.add(m.load(w6)); swoc::IPMask f = swoc::IPMask::mask_for(swoc::IP4Addr{a}), g = swoc::IPMask::mask_for(swoc::IP6Addr{c}), h = swoc::IPMask::mask_for(swoc::IPAddr{b}); fmt(d, "{} {} {} {}", m, f, g, h); d.add(m < g); break; }
    case 7: { swoc::IPRange g; d.add(g.load(r.flip() ? a + "/" + w4 : c + "-" + e)); swoc::IP4Range g4{swoc::IP4Addr{a}}; swoc::IPRangeView v; v.assign(g4); d.add(v.is_ip4()); d.add(v.contains(swoc::IP4Addr{b})); u64 n = 0; auto ns = g.networks(); for (auto it = ns.begin(); it != ns.end() && n < 4; ++it, ++n) fmt(d, "{}", *it); fmt(d, "{} {} {}", g.min(), g.max(), g); d.add(u64(g.network_mask().width())); std::ostringstream os; os << g; d.add(os.str()); break; }
    default: { swoc::IPRangeSet s; s.mark(swoc::IPRange{a + "/20"}); s.fill(swoc::IPRange{c + "/100"}); s.mark(swoc::IPRange{"10.0.0.0-10.0.0.9"}); for (auto const &g : s) fmt(d, "{}", g); d.add(s.contains(swoc::IPAddr{b})); swoc::IPSpace<std::string> sp; sp.mark(swoc::IPRange{a + "/24"}, "x").blend(swoc::IPRange{a + "/20"}, "y"s, [](std::string &l, std::string const &c2) { l += c2; return true; }); for (auto const &[g, v] : sp) fmt(d, "{} {}", g, v); auto mr = sp.intersection(swoc::IPRange{a + "/22"}); u64 n = 0; for (auto it = mr.first; it != mr.second; ++it) ++n; d.add(n); }
    } maybe_yield(r); }
}
static NOINL void w_view(Rng &r, Dig &d) {
  std::string s; for (int i = 0; i < 8; ++i) s += word(r, 6) + std::string(1, ",; =\t"[r.below(5)]); TextView t{s}; auto sep = [](char c) { return c == ',' || c == ';'; };
  for (int k = 0; k < 12; ++k) { TextView v = t; switch (r.below(16)) {
    case 0: while (v) d.add(v.take_suffix_at(',')); break; case 1: while (v) d.add(v.take_prefix_if(sep)); break; case 2: d.add(v.split_prefix_at(";,")); d.add(v.split_suffix_at(' ')); d.add(v.split_suffix_if(sep)); d.add(v); break; case 3: d.add(v.prefix_at(',')); d.add(v.suffix_at("=;")); d.add(v.prefix(3)); d.add(v.suffix(4)); d.add(v.prefix_if(sep)); break;
    case 4: d.add(v.ltrim("abcdef")); d.add(v.rtrim(",; =\t")); d.add(v.trim_if(&isspace)); d.add(v.trim('a')); break; case 5: d.add(v.find_if(sep)); d.add(v.rfind_if(sep)); d.add(v.starts_with_nocase("A"_tv)); d.add(v.ends_with_nocase("="_tv)); break; case 6: { u64 n = 0; for (auto x = swoc::transform_view_of(&toupper, v); x; ++x) n = n * 31 + u64(*x); d.add(n); break; }
    case 7: { std::ostringstream os; os << std::setw(60) << std::left << v; d.add(os.str()); break; } case 8: { TextView p; for (auto x : {"0x1fz", "0b101", "-077", "  +12 ", "zz", "99999999999999999999999"}) { d.add(u64(swoc::svtoi(x, &p, int(r.below(37))))); d.add(p.size()); d.add(swoc::svtou(x, &p, int(r.below(37)))); } break; } case 9: { for (auto x : {"1.5", "-2.5e-7x", "1e400", ".5", "12345678901234567890123"}) { TextView p; double f = swoc::svtod(x, &p); u64 u; memcpy(&u, &f, 8); d.add(u); d.add(p.size()); } break; }
    case 10: case 11: d.add(u64(swoc::svto_radix<10>(v))); d.add(v); break;
    case 12: d.add(u64(memcmp(v, TextView(s).prefix(4)) > 0)); d.add(u64(strcasecmp(v, "MMM"_tv) > 0)); break; case 13: { swoc::MemSpan<char const> m{s.data(), s.size()}; while (m) { d.add(m.count()); m.remove_prefix(1 + r.below(9)); } break; } case 14: { u64 n = 0; for (char c : v) n = n * 31 + u8(c); d.add(n); d.add(v.clip_prefix_of([](char c) { return c > 'c'; })); d.add(v.clip_suffix_of([](char c) { return c > 'c'; })); break; }
    default: { std::string x; x.assign(v.data(), v.size()); d.add(x); d.add(std::hash<TextView>()(v)); } } maybe_yield(r); }
}
using Work = void (*)(Rng &, Dig &);
static Work const WORK[] = {w_format, w_ip, w_space, w_text, w_arena, w_lexicon, w_hash, w_errata, w_file, w_digest, w_net, w_view};
static char const *const WNAME[] = {"format", "ip", "space", "text", "arena", "lexicon", "hash", "errata", "file", "digest", "net", "view"};
static constexpr int NW = std::size(WORK);
static void bind_names() { static bool once = [] { swoc::bwf::Global_Names.assign("name-a", [](swoc::BufferWriter &w, swoc::bwf::Spec const &s) -> swoc::BufferWriter & { return bwformat(w, s, "value a"sv); }); swoc::bwf::Global_Names.assign("name-b", [](swoc::BufferWriter &w, swoc::bwf::Spec const &s) -> swoc::BufferWriter & { return bwformat(w, s, 42); }); return true; }(); (void)once; }

// Run f(thread) in n threads started together; results per thread.
template <class F> static std::vector<u64> threads(unsigned n, F const &f) {
  std::vector<u64> out(n); std::atomic<unsigned> ready{0}; std::atomic<bool> go{false}; std::vector<std::thread> t;
  for (unsigned i = 0; i < n; ++i) t.emplace_back([&, i] { ++ready; while (!go) {} out[i] = f(i); });
  while (ready < n) {} go = true; for (auto &x : t) x.join(); return out;
}
struct Plan { unsigned n; std::vector<std::vector<std::pair<int, u64>>> items; };
static Plan plan(Rng &rng) {
  Plan p; p.n = unsigned(2 + rng.below(7)); p.items.resize(p.n); bool same = rng.flip(); int k = int(rng.below(NW)); u64 sd = rng.u(); size_t len = 4 + rng.below(12);
  for (auto &v : p.items) for (size_t i = 0; i < len; ++i) v.emplace_back(same ? k : int(rng.below(NW)), rng.chance(1, 3) ? sd + i : rng.u()); return p;
}
static u64 work(std::vector<std::pair<int, u64>> const &v, u64 *ops = nullptr) { Dig d; for (auto [k, s] : v) { Rng r(s); WORK[k](r, d); } if (ops) *ops += d.n; return d.h; }
static void compare(Plan const &p, std::vector<u64> const &got, std::vector<u64> const &want) {
  for (unsigned i = 0; i < p.n; ++i) if (got[i] != want[i]) { std::string s; for (auto [k, x] : p.items[i]) { Rng r(x); Dig a; WORK[k](r, a); s += WNAME[k]; s += ' '; } fail("different-result", "thread %u of %u (work: %s) computed another result than alone", i, p.n, s.substr(0, 300).c_str()); }
}
SUB(separate, 1600, 40000, 0) {
  bind_names(); auto p = plan(rng); T("%u threads, first work %s", p.n, WNAME[p.items[0][0].first]); auto got = threads(p.n, [&](unsigned i) { return work(p.items[i]); });
  std::vector<u64> want; u64 ops = 0; for (auto &v : p.items) want.push_back(work(v, &ops)); compare(p, got, want); for (auto w : want) obs(w); for (auto &v : p.items) for (auto [k, s] : v) { (void)s; switch (k) { case 0: EV("format work"); break; case 1: EV("ip work"); break; case 2: EV("space work"); break; case 3: EV("text work"); break; case 4: EV("arena work"); break; case 5: EV("lexicon work"); break; case 6: EV("hash work"); break; case 7: EV("errata work"); break; case 8: EV("file work"); break; case 9: EV("digest work"); break; case 10: EV("net work"); break; default: EV("view work"); } } for (u64 i = 0; i < ops; ++i) EV("results compared");
}
// First use: a fresh process whose very first library calls are concurrent.
template <class F> static std::string in_child(F const &f, int &status) { // f() -> bytes
  int pp[2]; if (pipe(pp)) exit(3); fflush(nullptr); pid_t c = fork(); if (c < 0) { perror("fork"); exit(3); }
  if (c == 0) { close(pp[0]); std::string s = f(); size_t o = 0; while (o < s.size()) { ssize_t k = ::write(pp[1], s.data() + o, s.size() - o); if (k <= 0) break; o += k; } _exit(0); }
  close(pp[1]); std::string s; char b[4096]; ssize_t k; while ((k = ::read(pp[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) s.append(b, k); close(pp[0]); while (waitpid(c, &status, 0) < 0 && errno == EINTR) {} return s;
}
SUB(afirst, 480, 8000, 0) { // sorts before the others: the parent has not used the library yet
  auto p = plan(rng); if (rng.flip()) for (auto &v : p.items) for (auto &x : v) x = {p.items[0][0].first, x.second}; if (rng.chance(1, 3)) for (auto &v : p.items) v = p.items[0];
  auto pack = [](std::vector<u64> const &v) { return std::string(reinterpret_cast<char const *>(v.data()), v.size() * 8); }; int st1, st2; T("%u threads, first work %s", p.n, WNAME[p.items[0][0].first]);
  auto a = in_child([&] { bind_names(); return pack(threads(p.n, [&](unsigned i) { return work(p.items[i]); })); }, st1); if (!WIFEXITED(st1) || WEXITSTATUS(st1)) fail(WIFEXITED(st1) && WEXITSTATUS(st1) == 66 ? "tsan-race" : "crash", "concurrent first use in a fresh process ended with status %x", st1);
  auto b = in_child([&] { bind_names(); std::vector<u64> w; for (auto &v : p.items) w.push_back(work(v)); return pack(w); }, st2); if (!WIFEXITED(st2) || WEXITSTATUS(st2)) fail("crash", "single thread status %x", st2);
  CHECK(a.size() == p.n * 8 && b.size() == a.size(), "lost", "results %zu %zu", a.size(), b.size()); CHECK(a == b, "different-result", "concurrent first use computed other results than a single thread"); obs(b); EV("fresh processes");
}
// ---- shared constant objects
struct Shared {
  swoc::IPSpace<int> ip; swoc::IPRangeSet set; swoc::DiscreteSpace<swoc::IP4Addr, int> ds; swoc::Lexicon<C8> lx{{{C8::A, {"alpha", "a"}}, {C8::B, {"bravo", "b"}}, {C8::C, {"charlie"}}}, C8::X, "none"}; swoc::Lexicon<C8> lh;
  std::vector<std::unique_ptr<HE>> own, lown; swoc::IntrusiveHashMap<HD> hm; swoc::IntrusiveDList<NLinks> dl; swoc::bwf::Format f1{"{0:>10}|{1:#x}|{0:.3}"}, f2{"{} {name-a} {}"}; Errata er; std::string text; swoc::MemArena arena; std::vector<TextView> words; swoc::IPRange range; swoc::file::path pth{"/usr/./lib/x.y"}; swoc::Vectray<int, 4> vr; swoc::IPAddr addr; swoc::IPSrv srv; swoc::IPNet net; swoc::LocalBufferWriter<128> bw; swoc::Scalar<10, long> sc; std::error_code ec; swoc::bwf::ExternalNames names; swoc::TextView tv; swoc::IPEndpoint ep; swoc::Rv<int> rv{3};
  explicit Shared(Rng &r) : sc(7), ec(5, std::generic_category()) {
    for (int i = 0; i < 60; ++i) { u32 a = u32(r.below(4000)), b = a + u32(r.below(100)); swoc::IPRange g{swoc::IP4Range{swoc::IP4Addr(a), swoc::IP4Addr(b)}}; ip.mark(g, i); set.mark(g); ds.mark({swoc::IP4Addr(a), swoc::IP4Addr(b)}, i); if (i % 3 == 0) ip.mark(swoc::IPRange{swoc::IP6Range{ip6(1, a), ip6(1, b)}}, i); }
    for (u64 i = 0; i < 200; ++i) { own.emplace_back(new HE{r.below(150)}); hm.insert(own.back().get()); } for (u64 i = 0; i < 40; ++i) { lown.emplace_back(new HE{i}); dl.append(lown.back().get()); }
    lh.define(C8::A, "one"); lh.set_default([](TextView n) { return C8(int(n.size())); }); lh.set_default([](C8 c) -> TextView { return c == C8::B ? "two"_tv : "many"_tv; });
    er.note("first {}", word(r)); er.note(Errata::Severity(2), "second"); { Errata o; o.note("inner"); er.note(std::move(o)); } for (int i = 0; i < 30; ++i) { { auto t = word(r, 20); auto l = arena.localize(t); words.push_back(TextView(l.data(), l.size())); } text += word(r) + ","; } range.load("10.1.0.7-10.2.3.255"); for (int i = 0; i < 9; ++i) vr.push_back(i);
    addr.load(::addr(r)); srv.load("10.1.2.3:99"); net.load("172.16.0.0/12"); bw.print("{} shared {}", word(r), 12); names.assign("ext", [](swoc::BufferWriter &w, swoc::bwf::Spec const &s) -> swoc::BufferWriter & { return bwformat(w, s, "extern"sv); }); tv = text; ep.parse("[fe80::1]:8080"); rv.note("note");
  }
};
static NOINL void share(Rng &r, Dig &d, Shared const &s) {
  switch (r.below(22)) {
  case 0: { for (int i = 0; i < 8; ++i) { auto it = s.ip.find(swoc::IPAddr(swoc::IP4Addr(u32(r.below(4200))))); d.add(it == s.ip.end() ? u64(-1) : u64(std::get<1>(*it))); } break; }
  case 1: { u64 n = 0; for (auto const &[g, v] : s.ip) { n += u64(v) + g.is_ip4(); } d.add(n); d.add(s.ip.count()); break; }
  case 2: { for (int i = 0; i < 8; ++i) d.add(s.set.contains(swoc::IPAddr(swoc::IP4Addr(u32(r.below(4200)))))); d.add(s.set.count()); break; }
  case 3: { auto it = s.ds.find(swoc::IP4Addr(u32(r.below(4200)))); d.add(it == s.ds.end() ? 0 : it->min().host_order() + 1); u64 n = 0; for (auto const &x : s.ds) n = n * 31 + x.max().host_order(); d.add(n); break; }
  case 4: d.add(u64(s.lx["ALPHA"])); d.add(u64(s.lx["nope"])); d.add(s.lx[C8::B]); d.add(s.lx[C8(55)]); d.add(s.lx.count()); { u64 n = 0; for (auto const &p : s.lx.by_names()) n += u64(std::get<0>(p)); d.add(n); } break;
  case 5: d.add(u64(s.lh["something"])); d.add(s.lh[C8::B]); d.add(s.lh[C8(88)]); break;
  case 6: for (int i = 0; i < 6; ++i) { u64 k = r.below(160); auto it = s.hm.find(k); d.add(it == s.hm.end() ? 0 : it->key + 1); } break;
  case 7: { u64 n = 0; for (auto const &e : s.hm) n += mix64(e.key); d.add(n); d.add(s.hm.count()); d.add(s.hm.bucket_count()); auto f = s.hm.find(static_cast<HE const *>(s.own[3].get())); d.add(f != s.hm.end()); break; }
  case 8: { u64 n = 0; for (auto const &e : s.dl) n = n * 31 + e.key; d.add(n); d.add(s.dl.count()); d.add(s.dl.head()->key + s.dl.tail()->key); break; }
  case 9: { swoc::LocalBufferWriter<300> w; w.print(s.f1, 12, 77); d.add(w.view()); break; }
  case 10: { swoc::LocalBufferWriter<300> w; w.print(s.f2, s.ec, s.addr); d.add(w.view()); break; }
  case 11: { fmt(d, "{}", s.er); for (auto const &n : s.er) { d.add(n.text()); d.add(n.level()); } d.add(s.er.is_ok()); d.add(u64(u8(s.er.severity()))); d.add(s.er.length()); d.add(s.er.front().text()); d.add(s.er.back().text()); break; }
  case 12: { TextView t{s.tv}; while (t) d.add(t.take_prefix_at(',')); d.add(s.tv.find_first_of("xyz")); d.add(swoc::svtou("123")); break; }
  case 13: for (auto const &w : s.words) { d.add(s.arena.contains(w.data())); d.add(w); } d.add(s.arena.size()); d.add(s.arena.remaining() < 1 << 30); d.add(s.arena.reserved_size() > 0); break;
  case 14: { u64 n = 0; for (auto const &g : s.range.networks()) { fmt(d, "{}", g); if (++n > 5) break; } fmt(d, "{} {::c}", s.range, s.range); d.add(s.range.contains(s.addr)); break; }
  case 15: d.add(s.pth.filename().string()); d.add(s.pth.parent_path().string()); d.add((s.pth / "z").string()); d.add(std::hash<swoc::file::path>()(s.pth)); fmt(d, "{:>30}", s.pth); break;
  case 16: { u64 n = 0; for (auto v : s.vr) n = n * 7 + u64(v); d.add(n); d.add(s.vr.size()); d.add(u64(s.vr[4])); break; }
  case 17: fmt(d, "{} {} {} {}", s.addr, s.srv, s.net, s.ep); d.add(s.addr.is_valid()); d.add(s.net.as_range().contains(s.addr)); d.add(s.addr == s.srv.addr()); break;
  case 18: d.add(s.bw.view()); fmt(d, "{} {}", s.bw.view(), s.sc.count()); d.add(s.bw.remaining()); break;
  case 19: { swoc::LocalBufferWriter<100> w; w.print_n(s.names.bind(), "{ext} {name}"); d.add(w.view()); break; }
  case 20: { Errata e; e.note(s.er); fmt(d, "{}", e); d.add(s.rv.is_ok()); d.add(u64(s.rv.result())); break; }
  case 21: { swoc::IPSpace<int> own; for (auto const &[g, v] : s.ip) { if (r.chance(1, 4)) own.mark(g, v); } d.add(own.count()); d.add(u64(s.sc.value())); break; }
  }
  maybe_yield(r);
}
SUB(shared, 1200, 30000, 0) {
  bind_names(); Shared s(rng); unsigned n = unsigned(2 + rng.below(7)); size_t len = 20 + rng.below(40); std::vector<u64> seeds; u64 sd = rng.u(); bool same = rng.chance(1, 3); for (unsigned i = 0; i < n; ++i) seeds.push_back(same ? sd : rng.u()); bool mix = rng.flip();
  auto f = [&](unsigned i) { Dig d; Rng r(seeds[i]); for (size_t k = 0; k < len; ++k) { share(r, d, s); if (mix && r.chance(1, 6)) WORK[r.below(NW)](r, d); } return d.h; };
  T("%u threads %zu operations each, mixed with own work %d", n, len, mix); std::vector<u64> want, got; bool first = rng.flip(); if (first) for (unsigned i = 0; i < n; ++i) want.push_back(f(i)); got = threads(n, f); if (!first) for (unsigned i = 0; i < n; ++i) want.push_back(f(i));
  for (unsigned i = 0; i < n; ++i) { CHECK(got[i] == want[i], "different-result", "thread %u of %u computed another result than alone on shared constant objects", i, n); obs(want[i]); for (size_t k = 0; k < len; ++k) EV("shared operations"); }
}
