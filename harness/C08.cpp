// title: Sort keys
// bounds-quick: all pairs of values of every scalar type; strings of 0..3 bytes; containers of 0..2 elements; variants with up to 200 alternatives' indices
// bounds-thorough: strings of 0..4 bytes, containers of 0..3 elements
// outside: longer strings and containers, NaN
#include "vsx.hpp"
#include "types.hpp"
#include <eosio/to_key.hpp>
#include <array>
#include <utility>
using namespace eosio;

struct cmp3 { bool lt, eq, pfx; };
// unsigned lexicographic comparison without branches on data
static cmp3 lex(const std::vector<char>& a, const std::vector<char>& b) {
   size_t m = a.size() < b.size() ? a.size() : b.size();
   int    eq = 1, lt = 0;
   for (size_t i = 0; i < m; ++i) {
      int l = (uint8_t)a[i] < (uint8_t)b[i], e = a[i] == b[i];
      lt |= eq & l;
      eq &= e;
   }
   cmp3 r;
   r.pfx = eq && a.size() != b.size();
   r.lt  = lt | (eq & (int)(a.size() < b.size()));
   r.eq  = eq & (int)(a.size() == b.size());
   return r;
}
template <typename T>
static void ord(const T& a, const T& b, bool lt, bool eq) {
   auto ka = convert_to_key(a), kb = convert_to_key(b);
   observe(ka, "ka");
   auto c = lex(ka, kb);
   vs_assert(!c.pfx, "one key is a proper prefix of another");
   vs_assert(c.lt == lt, "key order differs from value order");
   vs_assert(c.eq == eq, "key equality differs from value equality");
   // appended keys keep existing bytes
   std::vector<char> k2{ 'q' };
   convert_to_key(a, k2);
   vs_assert(k2.size() == ka.size() + 1 && k2[0] == 'q' && vs_eq(k2.data() + 1, ka.data(), ka.size()), "appending a key");
}
template <typename T>
static void ord(const T& a, const T& b) { ord(a, b, a < b, a == b); }
template <typename T>
static T sc(const char* n) { T v; vs_bytes(&v, sizeof v, n); return v; }
extern "C" void h_scalars() {
   switch (vs_choice(13, "type")) {
   case 0: { bool a = vs_u8("a") & 1, b = vs_u8("b") & 1; ord(a, b); break; }
   case 1: ord(sc<uint8_t>("a"), sc<uint8_t>("b")); break;
   case 2: ord(sc<int8_t>("a"), sc<int8_t>("b")); break;
   case 3: ord(sc<uint16_t>("a"), sc<uint16_t>("b")); break;
   case 4: ord(sc<int16_t>("a"), sc<int16_t>("b")); break;
   case 5: ord(sc<uint32_t>("a"), sc<uint32_t>("b")); break;
   case 6: ord(sc<int32_t>("a"), sc<int32_t>("b")); break;
   case 7: ord(sc<uint64_t>("a"), sc<uint64_t>("b")); break;
   case 8: ord(sc<int64_t>("a"), sc<int64_t>("b")); break;
   case 9: ord(sc<unsigned __int128>("a"), sc<unsigned __int128>("b")); break;
   case 10: ord(sc<__int128>("a"), sc<__int128>("b")); break;
   case 11: ord((vt::color)vs_u8("a"), (vt::color)vs_u8("b")); break;
   case 12: ord(name{ vs_u64("a") }, name{ vs_u64("b") }); break;
   }
   vs_reach("scalars");
}
// IEEE order computed on the bit patterns: -0 == +0, NaN excluded
template <typename F, typename U>
static void fl(U nanmask) {
   U    a, b;
   F    x, y;
   vs_bytes(&a, sizeof a, "a");
   vs_bytes(&b, sizeof b, "b");
   U mag = ~((U)1 << (sizeof(U) * 8 - 1));
   vs_assume((a & mag) <= nanmask && (b & mag) <= nanmask);
   memcpy(&x, &a, sizeof x);
   memcpy(&y, &b, sizeof y);
   bool za = (a & mag) == 0, zb = (b & mag) == 0, na = a & ~mag, nb = b & ~mag;
   bool eq = either(both(za, zb), a == b);
   bool lt = both(!eq, either(both(na, !nb), either(both(both(!na, !nb), a < b), both(both(na, nb), b < a))));
   ord(x, y, lt, eq);
}
extern "C" void h_floats() {
   if (vs_choice(2, "type")) fl<double, uint64_t>(0x7ff0000000000000ull);
   else fl<float, uint32_t>(0x7f800000u);
   vs_reach("floats");
}
extern "C" void h_strings() {
   size_t n = vs_choice(VS_Q(4, 5), "n"), m = vs_choice(VS_Q(4, 5), "m");
   auto   a = sym_str(n, "a"), b = sym_str(m, "b");
   auto   c = lex(std::vector<char>(a.begin(), a.end()), std::vector<char>(b.begin(), b.end()));
   switch (vs_choice(2, "type")) {
   case 0: ord(a, b, c.lt, c.eq); break;
   case 1: ord(std::string_view(a), std::string_view(b), c.lt, c.eq); break;
   }
   vs_reach("strings");
}
template <typename C>
static C mk(size_t n, const char* nm) { C c; for (size_t i = 0; i < n; ++i) c.insert(c.end(), sc<typename C::value_type>(nm)); return c; }
template <typename C>
static void seq(size_t n, size_t m) {
   auto a = mk<C>(n, "a"), b = mk<C>(m, "b");
   bool eq = n == m, pe = true, lt = false;
   auto i = a.begin();
   auto j = b.begin();
   for (; i != a.end() && j != b.end(); ++i, ++j) {
      lt = either(lt, both(pe, *i < *j));
      pe = both(pe, *i == *j);
   }
   lt = either(lt, both(pe, n < m));
   ord(a, b, lt, both(eq, pe));
}
extern "C" void h_sequences() {
   size_t n = vs_choice(VS_Q(3, 4), "n"), m = vs_choice(VS_Q(3, 4), "m");
   switch (vs_choice(9, "type")) {
   case 0: seq<std::vector<uint8_t>>(n, m); break;
   case 1: seq<std::vector<int8_t>>(n, m); break;
   case 2: seq<std::vector<uint16_t>>(n, m); break;
   case 3: seq<std::vector<char>>(n, m); break;
   case 4: seq<std::list<uint8_t>>(n, m); break;
   case 5: seq<std::deque<uint32_t>>(n, m); break;
   case 6: seq<std::vector<vt::color>>(n, m); break;
   case 7: { // vector<bool>-like: bool elements use the one-byte optional form
      std::list<bool> a, b;
      bool pe = true, lt = false;
      for (size_t i = 0; i < n; ++i) a.push_back(vs_u8("a") & 1);
      for (size_t i = 0; i < m; ++i) b.push_back(vs_u8("b") & 1);
      auto i = a.begin(); auto j = b.begin();
      for (; i != a.end() && j != b.end(); ++i, ++j) { lt = either(lt, both(pe, *i < *j)); pe = both(pe, *i == *j); }
      ord(a, b, either(lt, both(pe, n < m)), both(n == m, pe));
      break;
   }
   case 8: {
      std::vector<std::string> a, b;
      for (size_t i = 0; i < n && i < 2; ++i) a.push_back(sym_str(vs_choice(2, "l"), "a"));
      for (size_t i = 0; i < m && i < 2; ++i) b.push_back(sym_str(vs_choice(2, "l"), "b"));
      ord(a, b);
      break;
   }
   }
   vs_reach("sequences");
}
template <typename T>
static std::optional<T> opt(const char* n) { std::optional<T> o; if (vs_choice(2, "has")) o = sc<T>(n); return o; }
extern "C" void h_optional() {
   switch (vs_choice(6, "type")) {
   case 0: ord(opt<uint8_t>("a"), opt<uint8_t>("b")); break;
   case 1: ord(opt<int8_t>("a"), opt<int8_t>("b")); break;
   case 2: ord(opt<uint32_t>("a"), opt<uint32_t>("b")); break;
   case 3: { std::optional<bool> a, b; if (vs_choice(2, "has")) a = vs_u8("a") & 1; if (vs_choice(2, "has")) b = vs_u8("b") & 1; ord(a, b); break; }
   case 4: ord(opt<vt::color>("a"), opt<vt::color>("b")); break;
   case 5: { std::optional<std::string> a, b; if (vs_choice(2, "has")) a = sym_str(vs_choice(3, "l"), "a"); if (vs_choice(2, "has")) b = sym_str(vs_choice(3, "l"), "b"); ord(a, b); break; }
   }
   vs_reach("optional");
}
extern "C" void h_compound() {
   switch (vs_choice(6, "type")) {
   case 0: { std::tuple<uint8_t, int32_t> a{ vs_u8("a"), vs_u32("a") }, b{ vs_u8("b"), vs_u32("b") }; ord(a, b); break; }
   case 1: { std::pair<std::string, uint8_t> a{ sym_str(vs_choice(3, "l"), "a"), vs_u8("a") }, b{ sym_str(vs_choice(3, "l"), "b"), vs_u8("b") }; ord(a, b); break; }
   case 2: { std::array<int16_t, 2> a{ (int16_t)vs_u16("a"), (int16_t)vs_u16("a") }, b{ (int16_t)vs_u16("b"), (int16_t)vs_u16("b") }; ord(a, b); break; }
   case 3: {
      using V = std::variant<uint8_t, std::string, int16_t>;
      auto f = [](const char* n) { V v; switch (vs_choice(3, "alt")) { case 0: v = vs_u8(n); break; case 1: v = sym_str(vs_choice(2, "l"), n); break; case 2: v = (int16_t)vs_u16(n); break; } return v; };
      V a = f("a"), b = f("b");
      ord(a, b);
      break;
   }
   case 4: {
      vt::point a, b;
      a.b0 = vs_u16("a"); a.x = vs_u32("a"); a.y = vs_u64("a");
      b.b0 = vs_u16("b"); b.x = vs_u32("b"); b.y = vs_u64("b");
      ord(a, b, std::tie(a.b0, a.x, a.y) < std::tie(b.b0, b.x, b.y), a == b);
      break;
   }
   case 5: {
      std::tuple<std::optional<uint8_t>, std::string> a{ opt<uint8_t>("a"), sym_str(vs_choice(2, "l"), "a") }, b{ opt<uint8_t>("b"), sym_str(vs_choice(2, "l"), "b") };
      ord(a, b);
      break;
   }
   }
   vs_reach("compound");
}
extern "C" void h_assoc() {
   size_t n = vs_choice(3, "n"), m = vs_choice(3, "m");
   if (vs_choice(2, "type")) {
      std::set<uint8_t> a, b;
      for (size_t i = 0; i < n; ++i) a.insert(vs_u8("a"));
      for (size_t i = 0; i < m; ++i) b.insert(vs_u8("b"));
      ord(a, b);
   } else {
      std::map<uint8_t, uint8_t> a, b;
      for (size_t i = 0; i < n; ++i) a.emplace(vs_u8("a"), vs_u8("av"));
      for (size_t i = 0; i < m; ++i) b.emplace(vs_u8("b"), vs_u8("bv"));
      ord(a, b);
   }
   vs_reach("assoc");
}
extern "C" void h_chain_types() {
   switch (vs_choice(10, "type")) {
   case 0: { checksum256 a, b; for (auto& w : a.value) w = vs_u64("a"); for (auto& w : b.value) w = vs_u64("b"); ord(a, b); break; }
   case 1: { checksum160 a, b; for (auto& w : a.value) w = vs_u32("a"); for (auto& w : b.value) w = vs_u32("b"); ord(a, b); break; }
   case 2: { time_point a, b; a.elapsed._count = (int64_t)vs_u64("a"); b.elapsed._count = (int64_t)vs_u64("b"); ord(a, b, a.elapsed._count < b.elapsed._count, a.elapsed._count == b.elapsed._count); break; }
   case 3: { time_point_sec a{ vs_u32("a") }, b{ vs_u32("b") }; ord(a, b, a.utc_seconds < b.utc_seconds, a.utc_seconds == b.utc_seconds); break; }
   case 4: { block_timestamp a{ vs_u32("a") }, b{ vs_u32("b") }; ord(a, b, a.slot < b.slot, a.slot == b.slot); break; }
   case 5: { symbol_code a{ vs_u64("a") }, b{ vs_u64("b") }; ord(a, b, a.raw() < b.raw(), a.raw() == b.raw()); break; }
   case 6: { symbol a{ vs_u64("a") }, b{ vs_u64("b") }; ord(a, b, a.raw() < b.raw(), a.raw() == b.raw()); break; }
   case 7: { bytes a{ sym_vec(vs_choice(3, "l"), "a") }, b{ sym_vec(vs_choice(3, "l"), "b") }; ord(a, b, a.data < b.data, a.data == b.data); break; }
   case 8: {
      public_key a, b;
      auto f = [](public_key& k, const char* n) { ecc_public_key d{}; for (auto& c : d) c = 0; d[0] = vs_u8(n); d[32] = vs_u8(n); if (vs_choice(2, "alt")) k.emplace<1>(d); else k.emplace<0>(d); };
      f(a, "a"); f(b, "b");
      ord(a, b);
      break;
   }
   case 9: {
      std::array<uint8_t, 64> x, y;
      vs_bytes(x.data(), 64, "a"); vs_bytes(y.data(), 64, "b");
      checksum512 a{ x }, b{ y };
      auto c = lex(std::vector<char>(x.begin(), x.end()), std::vector<char>(y.begin(), y.end()));
      ord(a, b, c.lt, c.eq);
      break;
   }
   }
   vs_reach("chain types");
}
// variants with many alternatives: the index prefix keeps order and is minimal
template <size_t... I>
static auto many(std::index_sequence<I...>) { return std::variant<std::integral_constant<size_t, I>...>{}; }
struct e0 {};
extern "C" void h_varuint_key() {
   uint32_t a = vs_u32("a"), b = vs_u32("b");
   std::vector<char> ka, kb;
   { vector_stream s{ ka }; to_key_varuint32(a, s); }
   { vector_stream s{ kb }; to_key_varuint32(b, s); }
   auto c = lex(ka, kb);
   vs_assert(!c.pfx, "prefix");
   vs_assert(c.lt == (a < b), "varuint32 key order");
   vs_assert(c.eq == (a == b), "varuint32 key equality");
   vs_reach("varuint key");
}
