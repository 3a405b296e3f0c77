// title: Binary encoding round trip
// bounds-quick: all values of every scalar type; containers of 0..3 elements with arbitrary contents; strings and byte vectors of 0..4, 127, 128 and 300 bytes; every kind of container inside every kind of container, with up to 3 elements
// bounds-thorough: as quick, plus containers of up to 5 elements, strings / vectors of 16383 and 16384 elements
// bounds: see tier
// outside: longer containers, deeper nesting
// thorough-only: h_huge
#include "vsx.hpp"
#include "types.hpp"
using namespace eosio;

// decode(encode(v)) == v, the encoding has the expected length and is consumed exactly; appending leaves the prefix alone
template <typename T, typename Eq>
static void rt(const T& v, size_t expect, Eq&& eq) {
   auto b = convert_to_bin(v);
   if (b.size() <= 64) observe(b, "bin");
   if (expect != (size_t)-1) vs_assert(b.size() == expect, "encoded size");
   input_stream s{ b };
   T            w{};
   from_bin(w, s);
   vs_assert(s.remaining() == 0, "decode must consume exactly the encoding");
   vs_assert(eq(v, w), "decoded value differs");
   // followed by other data: the same bytes are consumed and the rest is left
   std::vector<char> c{ 'x' };
   convert_to_bin(v, c);
   vs_assert(c.size() == b.size() + 1 && c[0] == 'x' && vs_eq(c.data() + 1, b.data(), b.size()), "append leaves existing bytes and appends the encoding");
   c.push_back((char)0x81);
   input_stream s2{ c.data() + 1, c.size() - 1 };
   T            w2{};
   from_bin(w2, s2);
   vs_assert(s2.remaining() == 1, "decode reads beyond or short of the encoding");
   vs_assert(eq(v, w2), "decoded value differs when data follows");
}
template <typename T>
static void rt(const T& v, size_t expect = (size_t)-1) { rt(v, expect, [](const T& a, const T& b) { return a == b; }); }
template <typename T>
static T sc() { T v; vs_bytes(&v, sizeof v, "v"); return v; }
template <typename T>
static void le(const T& v) {   // arithmetic types are stored little endian
   auto b = convert_to_bin(v);
   vs_assert(b.size() == sizeof(T) && vs_eq(b.data(), &v, sizeof(T)), "scalar is not stored as its little-endian bytes");
}
extern "C" void h_scalars() {
   switch (vs_choice(14, "type")) {
   case 0: { bool v = vs_u8("v") & 1; rt(v, 1); le(v); break; }
   case 1: { auto v = sc<uint8_t>(); rt(v, 1); le(v); break; }
   case 2: { auto v = sc<int8_t>(); rt(v, 1); le(v); break; }
   case 3: { auto v = sc<uint16_t>(); rt(v, 2); le(v); break; }
   case 4: { auto v = sc<int16_t>(); rt(v, 2); le(v); break; }
   case 5: { auto v = sc<uint32_t>(); rt(v, 4); le(v); break; }
   case 6: { auto v = sc<int32_t>(); rt(v, 4); le(v); break; }
   case 7: { auto v = sc<uint64_t>(); rt(v, 8); le(v); break; }
   case 8: { auto v = sc<int64_t>(); rt(v, 8); le(v); break; }
   case 9: { auto v = sc<unsigned __int128>(); rt(v, 16); le(v); break; }
   case 10: { auto v = sc<__int128>(); rt(v, 16); le(v); break; }
   case 11: { auto v = sc<float>(); rt(v, 4, [](float a, float b) { return vs_eq(&a, &b, 4); }); le(v); break; }
   case 12: { auto v = sc<double>(); rt(v, 8, [](double a, double b) { return vs_eq(&a, &b, 8); }); le(v); break; }
   case 13: { vt::color v = (vt::color)vs_u8("v"); rt(v, 1); break; }
   }
   vs_reach("scalars");
}
static asset mk_asset() { asset a; a.amount = (int64_t)vs_u64("a"); a.symbol = symbol{ vs_u64("v") }; return a; }
extern "C" void h_chain_types() {
   switch (vs_choice(13, "type")) {
   case 0: rt(name{ vs_u64("v") }, 8); break;
   case 1: rt(symbol_code{ vs_u64("v") }, 8); break;
   case 2: rt(symbol{ vs_u64("v") }, 8); break;
   case 3: rt(mk_asset(), 16, [](const asset& a, const asset& b) { return a.amount == b.amount && a.symbol == b.symbol; }); break;
   case 4: { extended_asset ea; ea.quantity = mk_asset(); ea.contract = name{ vs_u64("c") }; rt(ea, 24,
              [](const extended_asset& a, const extended_asset& b) { return a.quantity.amount == b.quantity.amount && a.quantity.symbol == b.quantity.symbol && a.contract == b.contract; }); break; }
   case 5: rt(time_point{ microseconds{ (int64_t)vs_u64("v") } }, 8, [](const time_point& a, const time_point& b) { return a.elapsed._count == b.elapsed._count; }); break;
   case 6: rt(time_point_sec{ vs_u32("v") }, 4, [](const time_point_sec& a, const time_point_sec& b) { return a.utc_seconds == b.utc_seconds; }); break;
   case 7: rt(block_timestamp{ vs_u32("v") }, 4, [](const block_timestamp& a, const block_timestamp& b) { return a.slot == b.slot; }); break;
   case 8: { std::array<uint8_t, 32> a; vs_bytes(a.data(), 32, "v"); checksum256 c{ a }; auto b = convert_to_bin(c); vs_assert(b.size() == 32 && vs_eq(b.data(), a.data(), 32), "checksum256 bytes"); rt(c, 32); break; }
   case 9: { std::array<uint8_t, 20> a; vs_bytes(a.data(), 20, "v"); checksum160 c{ a }; auto b = convert_to_bin(c); vs_assert(b.size() == 20 && vs_eq(b.data(), a.data(), 20), "checksum160 bytes"); rt(c, 20); break; }
   case 10: { std::array<uint8_t, 64> a; vs_bytes(a.data(), 64, "v"); checksum512 c{ a }; auto b = convert_to_bin(c); vs_assert(b.size() == 64 && vs_eq(b.data(), a.data(), 64), "checksum512 bytes"); rt(c, 64); break; }
   case 11: { float128 f; vs_bytes(&f, 16, "v"); rt(f, 16, [](const float128& a, const float128& b) { return vs_eq(&a, &b, 16); }); break; }
   case 12: rt(extended_symbol{ symbol{ vs_u64("v") }, name{ vs_u64("c") } }, 16); break;
   }
   vs_reach("chain types");
}
static size_t vlen(size_t n) { return n < 128 ? 1 : n < 16384 ? 2 : 3; }
extern "C" void h_strings() {
   static const size_t L[] = { 0, 1, 2, 3, 4, 127, 128, 300 };
   size_t n = L[vs_choice(8, "len")];
   switch (vs_choice(3, "type")) {
   case 0: { auto s = sym_str(n, "s"); rt(s, n + vlen(n), [](const std::string& a, const std::string& b) { return same(a, b); }); break; }
   case 1: { bytes b{ sym_vec(n, "s") }; rt(b, n + vlen(n), [](const bytes& a, const bytes& b) { return same(a.data, b.data); }); break; }
   case 2: { auto v = sym_vec(n, "s"); rt(v, n + vlen(n), [](const std::vector<char>& a, const std::vector<char>& b) { return same(a, b); }); break; }
   }
   vs_reach("strings");
}
template <typename T>
static void fill(T& c, size_t n) { for (size_t i = 0; i < n; ++i) c.push_back(sc<typename T::value_type>()); }
extern "C" void h_sequences() {
   size_t n = vs_choice(VS_Q(4, 6), "len");
   switch (vs_choice(6, "type")) {
   case 0: { std::vector<uint32_t> v; fill(v, n); rt(v, 1 + 4 * n); break; }
   case 1: { std::list<uint16_t> v; fill(v, n); rt(v, 1 + 2 * n); break; }
   case 2: { std::deque<uint64_t> v; fill(v, n); rt(v, 1 + 8 * n); break; }
   case 3: { std::vector<std::string> v; size_t t = 1; for (size_t i = 0; i < n; ++i) { v.push_back(sym_str(i, "s")); t += 1 + i; } rt(v, t); break; }
   case 4: { std::vector<vt::point> v(n); for (auto& p : v) { p.b0 = vs_u16("b"); p.x = (int32_t)vs_u32("x"); p.y = vs_u64("y"); } rt(v, 1 + 14 * n); break; }
   case 5: { std::vector<varuint32> v; for (size_t i = 0; i < n && i < 3; ++i) v.push_back(varuint32{ vs_u32("v") }); rt(v); break; }
   }
   vs_reach("sequences");
}
extern "C" void h_assoc() {
   size_t n = vs_choice(VS_Q(4, 5), "len");
   switch (vs_choice(2, "type")) {
   case 0: { std::set<uint8_t> v; for (size_t i = 0; i < n; ++i) v.insert(vs_u8("k")); rt(v, 1 + v.size()); break; }
   case 1: { std::map<uint8_t, uint16_t> v; for (size_t i = 0; i < n; ++i) v.emplace(vs_u8("k"), vs_u16("m")); rt(v, 1 + 3 * v.size()); break; }
   }
   vs_reach("assoc");
}
// containers inside containers: what one element holds never depends on the elements before it
template <typename T> static T leaf(const T*) { return sc<T>(); }
static std::string leaf(const std::string*) { return sym_str(vs_choice(2, "sl"), "s"); }
template <typename C> static C many(size_t n) {
   C c;
   for (size_t i = 0; i < n; ++i) c.insert(c.end(), leaf((typename C::value_type*)nullptr));
   return c;
}
template <typename C> static C some() { return many<C>(vs_choice(3, "len")); }
template <typename C> static void as_values() {   // mapped values, elements, optional contents, alternatives, fields
   C x = some<C>(), y = many<C>(vs_choice(2, "len2")), z = many<C>(1);
   switch (vs_choice(10, "outer")) {
   case 0: { std::map<uint8_t, C> v; v[3] = x; v[7] = y; v[9] = z; rt(v); break; }
   case 1: { std::vector<C> v{ x, y, z }; rt(v); break; }
   case 2: { std::list<C> v{ x, y, z }; rt(v); break; }
   case 3: { std::deque<C> v{ x, y, z }; rt(v); break; }
   case 4: { std::array<C, 3> v{ x, y, z }; rt(v); break; }
   case 5: { std::tuple<C, C, uint8_t> v{ x, y, vs_u8("t") }; rt(v); break; }
   case 6: { std::pair<C, C> v{ x, y }; rt(v); break; }
   case 7: { std::vector<std::optional<C>> v{ x, std::nullopt, y }; rt(v); break; }
   case 8: { std::vector<std::variant<uint8_t, C>> v; v.emplace_back(x); v.emplace_back(vs_u8("t")); v.emplace_back(y); rt(v); break; }
   case 9: { std::map<std::string, std::vector<C>> v; v["a"] = { x, y }; v["b"] = { z }; rt(v); break; }
   }
}
extern "C" void h_nested() {
   switch (vs_choice(6, "inner")) {
   case 0: as_values<std::set<uint8_t>>(); break;
   case 1: as_values<std::list<uint16_t>>(); break;
   case 2: as_values<std::deque<uint8_t>>(); break;
   case 3: as_values<std::vector<uint16_t>>(); break;
   case 4: as_values<std::vector<std::string>>(); break;
   case 5: as_values<std::string>(); break;
   }
   vs_reach("nested");
}
extern "C" void h_nested_keys() {
   switch (vs_choice(4, "type")) {
   case 0: { std::map<uint8_t, std::map<uint8_t, uint16_t>> v; v[1][vs_u8("k")] = vs_u16("v"); v[1][9] = vs_u16("v"); if (vs_choice(2, "two")) v[2][vs_u8("k")] = vs_u16("v"); rt(v); break; }
   case 1: { std::set<std::vector<uint8_t>> v; for (size_t i = 0; i < 3; ++i) { std::vector<uint8_t> e(vs_choice(3, "l")); for (auto& x : e) x = vs_u8("e"); v.insert(e); } rt(v); break; }
   case 2: { std::map<std::pair<uint8_t, std::string>, uint8_t> v; v[{ vs_u8("k"), sym_str(1, "s") }] = 1; v[{ vs_u8("k"), "" }] = vs_u8("v"); rt(v); break; }
   case 3: { std::set<name> v; for (int i = 0; i < 2; ++i) v.insert(name{ vs_u64("n") }); rt(v); break; }
   }
   vs_reach("nested keys");
}
extern "C" void h_wrappers() {
   switch (vs_choice(8, "type")) {
   case 0: { std::optional<uint32_t> v; if (vs_choice(2, "has")) v = vs_u32("v"); rt(v, v ? 5 : 1); break; }
   case 1: { std::optional<std::string> v; if (vs_choice(2, "has")) v = sym_str(3, "v"); rt(v, v ? 5 : 1); break; }
   case 2: {
      std::variant<uint8_t, std::string, vt::point, uint64_t> v;
      size_t e = 0;
      switch (vs_choice(4, "alt")) {
      case 0: v = vs_u8("v"); e = 2; break;
      case 1: v = sym_str(2, "v"); e = 4; break;
      case 2: { vt::point p; p.b0 = vs_u16("b"); p.x = (int32_t)vs_u32("x"); p.y = vs_u64("y"); v = p; e = 15; break; }
      case 3: v = vs_u64("v"); e = 9; break;
      }
      auto b = convert_to_bin(v);
      vs_assert((size_t)b[0] == v.index(), "variant starts with its alternative's index");
      rt(v, e);
      break;
   }
   case 3: { std::tuple<uint8_t, std::string, uint32_t> v{ vs_u8("a"), sym_str(2, "s"), vs_u32("c") }; rt(v, 8); break; }
   case 4: { std::pair<uint16_t, int64_t> v{ vs_u16("a"), (int64_t)vs_u64("b") }; rt(v, 10); break; }
   case 5: { std::array<uint32_t, 3> v; for (auto& x : v) x = vs_u32("v"); rt(v, 12); break; }
   case 6: { vt::point p; p.b0 = vs_u16("b"); p.x = (int32_t)vs_u32("x"); p.y = vs_u64("y"); rt(p, 14); break; }
   case 7: { vt::empty_t e; rt(e, 0, [](auto&, auto&) { return true; }); break; }
   }
   vs_reach("wrappers");
}
struct c_arrays { uint16_t a[3]; std::string s[2]; };
EOSIO_REFLECT(c_arrays, a, s)
extern "C" void h_c_arrays() {
   c_arrays v;
   for (auto& x : v.a) x = vs_u16("a");
   for (auto& x : v.s) x = sym_str(2, "s");
   rt(v, 1 + 6 + 1 + 6, [](const c_arrays& a, const c_arrays& b) { return vs_eq(a.a, b.a, 6) && same(a.s[0], b.s[0]) && same(a.s[1], b.s[1]); });
   vs_reach("c arrays");
}
extern "C" void h_struct() {
   vt::outer o;
   o.a    = vs_u8("a");
   o.p.b0 = vs_u16("b");
   o.p.x  = (int32_t)vs_u32("x");
   o.p.y  = vs_u64("y");
   size_t n = vs_choice(3, "n"), e = 1 + 14 + 1;
   for (size_t i = 0; i < n; ++i) {
      vt::rec r;
      r.s = sym_str(i + 1, "s");
      for (size_t k = 0; k < i; ++k) r.v.push_back(vs_u16("rv"));
      if (vs_choice(2, "opt")) r.o = vs_u32("ro");
      e += 1 + i + 1 + 1 + 2 * i + 1 + (r.o ? 4 : 0);
      o.rs.push_back(r);
   }
   switch (vs_choice(3, "alt")) {
   case 0: o.var = vs_u8("v"); e += 2; break;
   case 1: o.var = sym_str(3, "v"); e += 5; break;
   case 2: o.var = o.p; e += 15; break;
   }
   rt(o, e);
   vs_reach("struct");
}
extern "C" void h_keys() {
   int  k = vs_choice(3, "alt");
   auto body = [&](auto& key) {
      for (auto& c : key.data) c = vs_u8("k");
   };
   if (k < 2) {
      public_key p, q;
      ecc_public_key d;
      for (auto& c : d) c = vs_u8("k");
      if (k == 0) p.emplace<0>(d); else p.emplace<1>(d);
      rt(p, 34);
   } else {
      signature s;
      ecc_signature d;
      for (auto& c : d) c = vs_u8("k");
      s.emplace<1>(d);
      rt(s, 66);
      public_key w;
      webauthn_public_key wk;
      for (auto& c : wk.key) c = vs_u8("k");
      wk.user_presence = (webauthn_public_key::user_presence_t)vs_u8("uv");
      wk.rpid = sym_str(2, "rpid");
      w.emplace<2>(wk);
      rt(w, 1 + 33 + 1 + 3);
   }
   vs_reach("keys");
}
extern "C" void h_huge() {
   size_t n = vs_choice(2, "len") ? 16383 : 16384;
   if (vs_choice(2, "type")) { auto s = sym_str(n, "s"); rt(s, n + vlen(n), [](const std::string& a, const std::string& b) { return same(a, b); }); }
   else { std::vector<uint16_t> v(n); vs_bytes(v.data(), 2 * n, "v"); rt(v, 2 * n + vlen(n), [](auto& a, auto& b) { return a.size() == b.size() && vs_eq(a.data(), b.data(), 2 * a.size()); }); }
   vs_reach("huge");
}
// decoding into an object that already holds a value (set, map, list and deque add to what they hold, see DESIGN.md)
template <typename T, typename Eq> static void over(const T& v, T old, Eq&& eq) {
   auto b = convert_to_bin(v);
   input_stream s{ b };
   from_bin(old, s);
   vs_assert(s.remaining() == 0, "decode into a used object must consume exactly the encoding");
   vs_assert(eq(v, old), "the decoded value depends on what the object held before");
}
template <typename T> static void over(const T& v, T old) { over(v, std::move(old), [](const T& a, const T& b) { return a == b; }); }
template <typename T> static std::vector<T> some_vec(const char* l) { std::vector<T> v; fill(v, vs_choice(3, l)); return v; }
struct reused { std::optional<uint16_t> o; std::vector<uint8_t> v; std::string s; std::variant<uint8_t, uint32_t> w; };
EOSIO_REFLECT(reused, o, v, s, w)
static std::optional<uint16_t> mk_opt(const char* l) { if (vs_choice(2, l)) return vs_u16("o"); return {}; }
static std::variant<uint8_t, uint32_t> mk_var(const char* l) { if (vs_choice(2, l)) return vs_u32("w"); return vs_u8("w"); }
static reused mk_reused(const char* a, const char* b, const char* c, const char* d) {
   reused r; r.o = mk_opt(a); r.v = some_vec<uint8_t>(b); r.s = sym_str(vs_choice(3, c), "s"); r.w = mk_var(d); return r;
}
extern "C" void h_reuse() {
   switch (vs_choice(10, "type")) {
   case 0: over(mk_opt("a"), mk_opt("b")); break;
   case 1: over(some_vec<uint32_t>("a"), some_vec<uint32_t>("b")); break;
   case 2: over(sym_str(vs_choice(4, "a"), "s"), sym_str(vs_choice(4, "b"), "t"), [](const std::string& a, const std::string& b) { return same(a, b); }); break;
   case 3: over(mk_var("a"), mk_var("b")); break;
   case 4: { std::vector<std::string> x, y; for (size_t i = vs_choice(3, "a"); i; --i) x.push_back(sym_str(i, "s")); for (size_t i = vs_choice(3, "b"); i; --i) y.push_back(sym_str(2, "t"));
             over(x, y, [](auto& a, auto& b) { bool r = a.size() == b.size(); for (size_t i = 0; r && i < a.size(); ++i) r = same(a[i], b[i]); return r; }); break; }
   case 5: { bytes x{ sym_vec(vs_choice(4, "a"), "s") }, y{ sym_vec(vs_choice(4, "b"), "t") }; over(x, y, [](const bytes& a, const bytes& b) { return same(a.data, b.data); }); break; }
   case 6: { std::tuple<std::optional<uint16_t>, std::vector<uint8_t>> x{ mk_opt("a"), some_vec<uint8_t>("b") }, y{ mk_opt("c"), some_vec<uint8_t>("d") }; over(x, y); break; }
   case 7: { std::array<std::optional<uint16_t>, 2> x{ mk_opt("a"), mk_opt("b") }, y{ mk_opt("c"), mk_opt("d") }; over(x, y); break; }
   case 8: { auto x = mk_reused("a", "b", "c", "d"); reused y; y.o = 5; y.v = { 1, 2, 3 }; y.s = "abc"; y.w = uint32_t(7);
             over(x, y, [](auto& a, auto& b) { return a.o == b.o && a.v == b.v && same(a.s, b.s) && a.w == b.w; }); break; }
   case 9: { std::optional<std::vector<uint8_t>> x, y; if (vs_choice(2, "p")) x = some_vec<uint8_t>("a"); if (vs_choice(2, "q")) y = some_vec<uint8_t>("b"); over(x, y); break; }
   }
   vs_reach("reuse");
}
